From 6d928ef73bf6d0305d7b44d7cd49d824c83fcbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:28 +0000
Subject: [PATCH 01/49] fix: bound the copy of a message payload to the
 announced length

extract_data copied every byte after the first line feed into a buffer of
length+1 bytes, searched a buffer that is not null terminated with strstr, left
the tail of a short payload uninitialised and took the payload from before the
command line when the message started with empty lines.
---
 src/common/mlle_utils.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 9b39e26..c59bdb8 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -43,6 +43,7 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
 {
     char *data_part = NULL;
     size_t data_len = 0;
+    size_t line_start = 0;
 
     if ((*command)->data != NULL)
     {
@@ -51,8 +52,13 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
     }
 
     // Get pointer to data part
-    // Everything after the first new line character is the data part.
-    data_part = strstr(buffer, "\n");
+    // Everything after the command line is the data part. The parser skips
+    // empty lines before the command. The buffer isn't null terminated.
+    while (line_start < buffer_len && buffer[line_start] == '\n')
+    {
+        line_start++;
+    }
+    data_part = memchr(buffer + line_start, '\n', buffer_len - line_start);
     if (data_part == NULL)
     {
         return 0;
@@ -60,8 +66,14 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
     data_part++;
     data_len = buffer_len - (data_part - buffer);
 
+    // The message may hold more bytes than the command announced.
+    if (data_len > (*command)->length)
+    {
+        data_len = (*command)->length;
+    }
+
     // Allocate memory for total length of data to read.
-    (*command)->data = malloc((*command)->length + 1);
+    (*command)->data = calloc((*command)->length + 1, 1);
     if ((*command)->data == NULL)
     {
         return 0;
-- 
2.43.0


From 3d12a19ee7d1461e91e07ed281036ee0346927b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:30 +0000
Subject: [PATCH 02/49] fix: answer a command whose payload is missing or short
 with an error

The handlers dereferenced a NULL payload (no line feed, or out of memory) and
acted on payloads shorter than the announced length.
---
 src/lve/mlle_lve.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 71b83c2..940a962 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -83,7 +83,16 @@ mlle_lve_handle_command(struct mlle_lve_ctx *lve_ctx,
     if (mlle_command_info[command->id].msg_form == MLLE_PROTOCOL_LENGTH_MSG_FORM)
     {
         // Extract data from message.
-        extract_data(&command, buffer, buffer_len);
+        size_t data_len = extract_data(&command, buffer, buffer_len);
+
+        if (command->data == NULL || data_len < command->length)
+        {
+            free(command->data);
+            command->data = NULL;
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_COMMAND_NOT_UNDERSTOOD_ERROR,
+                    "Input error. The data of the message is missing or incomplete.");
+            return current_state;
+        }
     }
 
     switch (current_state) {
-- 
2.43.0


From 47bbe205eafb5c194190c5be612f1e1427430982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:32 +0000
Subject: [PATCH 03/49] fix: fail a reply that ends early instead of returning
 it as complete

mlle_read_command passed -1 to memcpy when the connection was lost in the
middle of a reply, copied more than the announced length, and reported success
with no data.
---
 src/common/mlle_utils.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index c59bdb8..2dbdb6e 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -164,6 +164,7 @@ int mlle_read_command(SSL *ssl,
         if (command->data == NULL)
         {
             mlle_error_set_literal(error, 1, 1, "End Of File.");
+            return 0;
         }
     }
 
@@ -174,6 +175,20 @@ int mlle_read_command(SSL *ssl,
     {
         // Read more data.
         bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
+        if (bytesRead <= 0)
+        {
+            free(command->data);
+            command->data = NULL;
+            ssl_get_error_string(errorCode, error_msg, ERROR_SIZE);
+            mlle_error_set_literal(error, 1, 1, error_msg);
+            return 0;
+        }
+
+        // Never take more than what is left of the announced length.
+        if ((size_t) bytesRead > command->length - totalBytesRead)
+        {
+            bytesRead = (int) (command->length - totalBytesRead);
+        }
 
         // Add data to command buffer.
         memcpy(command->data + totalBytesRead, messageBuffer, bytesRead);
-- 
2.43.0


From 07a0ab24dd9eb44e0357516d8262c365c3d3d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:40 +0000
Subject: [PATCH 04/49] fix: reject encrypted data shorter than an IV and a MAC

A truncated .moc file gave a negative length for the encrypted part and reads
before and after the input buffer.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 2e24f34..c0cf20c 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -18,6 +18,7 @@
 
 #define _XOPEN_SOURCE 700
 
+#include <limits.h>
 #include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
@@ -280,6 +281,9 @@ int mlle_cr_decrypt(
     /* Split incoming data. */
     iv_in   = (unsigned char*) in;
     if (in) {
+        /* The data must hold at least an IV and a MAC, and fit the int lengths used below. */
+        if (in_len < (size_t) iv_len + mac_len || in_len > INT_MAX)
+            goto error;
         enc_in = iv_in + iv_len;
         mac_in = iv_in + in_len - mac_len;
         enc_len = (int)(in_len - iv_len - mac_len);
-- 
2.43.0


From 90851dcdce39f7e8048404501d73b529df3b2556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:42 +0000
Subject: [PATCH 05/49] fix: decrypt files correctly when a directory has no,
 or an empty, package.moc

Without package.moc in its directory a normal file was treated as one: its last
bytes were cut off and stored as key mask. An empty package.mo made every other
file of its directory undecryptable, and a failure to get the key mask was
ignored.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index c0cf20c..777c048 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -152,12 +152,15 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     if (error) {
         /* assume that no file exists; read mask from parent */
         ret = mlle_demask_key(context, path, key);
+        if (ret > 0) {
+            ret = 0; /* the file being decrypted is not a package.moc, there is no key mask to store */
+        }
     }
     else {
         out_buffer = malloc(file_size);
         if (file_buffer && out_buffer) {
             int ret_code = mlle_cr_decrypt(context, path, file_buffer, file_size, out_buffer);
-            if (ret_code > 0) {
+            if (ret_code >= 0) {
                 /* key mask is now in the hash but it's also the tail in the outbuffer */
                 for (i = 0; i < MLLE_CR_KEY_LEN; ++i) {
                     key[i] = key[i] ^ out_buffer[ret_code + i];
@@ -294,6 +297,8 @@ int mlle_cr_decrypt(
 #ifndef DISABLE_DEMASK_KEY
     if (context && rel_file_path) {
         restore_mask_flag = mlle_demask_key(context, rel_file_path, MLLE_CR_KEY);
+        if (restore_mask_flag < 0)
+            goto error;
     }
 #endif
     if (!in) return 0;
@@ -327,6 +332,8 @@ int mlle_cr_decrypt(
 #ifndef DISABLE_DEMASK_KEY
     /* check if this is a package.moc file and save the key into cache */
     if (restore_mask_flag) {
+        if (out_len < MLLE_CR_KEY_LEN)
+            goto error;
         out_len -= MLLE_CR_KEY_LEN; /* take out key length from the data sent back*/
         if (mlle_store_keymask(context, rel_file_path, out + out_len) < 0)
             goto error;
-- 
2.43.0


From 44dede3412b1c5aa7163a7786e05cc6fefad8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:44 +0000
Subject: [PATCH 06/49] fix: reject paths too long for the key mask path buffer

"/package.moc" was appended after the last path separator of a path of up to
MLLE_LONG_FILE_NAME_MAX characters, past the end of the buffer.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 777c048..914ede1 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -97,6 +97,9 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
         i++;
     }
     rel_path_len = i;
+    if (rel_path_len > MLLE_LONG_FILE_NAME_MAX - sizeof("/package.moc")) {
+        return -1; /* too long, "/package.moc" has to fit after the directory */
+    }
     path[last_slash_index] = 0;
     
     if (last_slash_index) {
-- 
2.43.0


From 602607bb9c8c6edcbe1c5878f140af7b251e2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:01 +0000
Subject: [PATCH 07/49] fix: answer a LIB command that gives no usable path and
 wait for another

An empty LIB command, or one for which memory could not be allocated, was never
answered, which left the tool waiting, and moved on to serving files from a
library path that is not set.
---
 src/lve/mlle_lve.c         |  5 +++++
 src/lve/mlle_lve_libpath.c | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 940a962..92b131b 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -155,6 +155,11 @@ mlle_lve_handle_command(struct mlle_lve_ctx *lve_ctx,
         command->data = NULL;
     }
 
+    // Without a library the commands that follow LIB can't be served.
+    if (command->id == MLLE_PROTOCOL_LIB_CMD && lve_ctx->libpath == NULL) {
+        next_state = current_state;
+    }
+
     return next_state;
 }
 
diff --git a/src/lve/mlle_lve_libpath.c b/src/lve/mlle_lve_libpath.c
index 07c2a89..4722f22 100644
--- a/src/lve/mlle_lve_libpath.c
+++ b/src/lve/mlle_lve_libpath.c
@@ -64,12 +64,25 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
     if ((command->data == NULL) || (command->length == 0)) {
         lve_ctx->tool_error_type = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
         lve_ctx->tool_error_msg = "Path to library is missing.";
+        if(!is_in_checkout_feature_without_tool_mode) {
+            mlle_send_error(lve_ctx->ssl, lve_ctx->tool_error_type,
+                            lve_ctx->tool_error_msg);
+        }
         return 0;
     }
 
     path_size = command->length;
 
     lve_ctx->libpath = malloc(path_size + 1);
+    if (lve_ctx->libpath == NULL) {
+        lve_ctx->tool_error_type = MLLE_PROTOCOL_OTHER_ERROR;
+        lve_ctx->tool_error_msg = "Failed to allocate memory for library path.";
+        if(!is_in_checkout_feature_without_tool_mode) {
+            mlle_send_error(lve_ctx->ssl, lve_ctx->tool_error_type,
+                            lve_ctx->tool_error_msg);
+        }
+        return 0;
+    }
     memcpy(lve_ctx->libpath, command->data, path_size);
     lve_ctx->libpath[path_size] = '\0';
 
@@ -88,6 +101,12 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
         lve_ctx->tool_error_type = MLLE_PROTOCOL_OTHER_ERROR;
         lve_ctx->tool_error_msg =
             "Failed to allocate memory for decryption context.";
+        free(lve_ctx->libpath);
+        lve_ctx->libpath = NULL;
+        if(!is_in_checkout_feature_without_tool_mode) {
+            mlle_send_error(lve_ctx->ssl, lve_ctx->tool_error_type,
+                            lve_ctx->tool_error_msg);
+        }
         return 0;
     }
     /* Check global licence, if defined. */
-- 
2.43.0


From 6c1532fcc498bf3d72886492606ab1b6c69d75a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:02 +0000
Subject: [PATCH 08/49] fix: don't crash on a tool that sends no certificate

The handshake doesn't require a client certificate; without one there is no
public key to compare with the trusted keys.
---
 src/lve/mlle_lve_pubkey.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lve/mlle_lve_pubkey.c b/src/lve/mlle_lve_pubkey.c
index 31300b7..547189b 100644
--- a/src/lve/mlle_lve_pubkey.c
+++ b/src/lve/mlle_lve_pubkey.c
@@ -73,8 +73,10 @@ int validate()
     INITIALIZE_PUBLIC_KEY_TOOL();
     // global_tool_pub_key is the public key received in
     // the LVE:s callback method during TLS handshake.
+    // It's not set if the tool didn't send a certificate.
     for (i = 0; i < PUBLIC_KEY_TOOL_NUM; i++){
-        if (strcmp(global_tool_pub_key, PUBLIC_KEY_TOOL[i]) == 0)
+        if (global_tool_pub_key != NULL
+            && strcmp(global_tool_pub_key, PUBLIC_KEY_TOOL[i]) == 0)
         {
             /* Found matching key. */
             break;            
-- 
2.43.0


From f70911e0f4f6adcda59682ed17980cc3d96eb712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:05 +0000
Subject: [PATCH 09/49] fix: always answer a failed FILE command, also without
 an error text

The NULL check in mlle_send_error came after strlen, and no answer was sent at
all when the error text could not be allocated.
---
 src/common/mlle_io.c    | 2 +-
 src/lve/mlle_lve_file.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index 905234c..ee7325e 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -284,8 +284,8 @@ void mlle_send_number_and_length_form(SSL *ssl,
 
 void mlle_send_error(SSL *ssl, long error_code, const char *error_msg)
 {
-    size_t length = strlen(error_msg);
     if (error_msg != NULL) {
+        size_t length = strlen(error_msg);
         mlle_send_number_and_length_form(ssl, MLLE_PROTOCOL_ERROR_CMD,
                                          error_code, length, error_msg);
     } else {
diff --git a/src/lve/mlle_lve_file.c b/src/lve/mlle_lve_file.c
index 76067ee..2f94352 100644
--- a/src/lve/mlle_lve_file.c
+++ b/src/lve/mlle_lve_file.c
@@ -108,7 +108,7 @@ CLEANUP:
     free(file_buffer);
     free(file_out_buffer);
     free(file_path);
-    if (error_msg != NULL) {
+    if (error_code != MLLE_PROTOCOL_UNDEFINED_ERROR) {
         mlle_send_error(lve_ctx->ssl, error_code, error_msg);
     }
     if (error != NULL) {
-- 
2.43.0


From eed2b2bd0d2aa339852b220a9e1c8647f66dd708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:06 +0000
Subject: [PATCH 10/49] fix: refuse '..' in the path of a FILE command

The protocol interprets paths relative to the top level package and says that
'..' may not be used, but any file readable by the LVE could be requested.
---
 src/lve/mlle_lve_file.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/lve/mlle_lve_file.c b/src/lve/mlle_lve_file.c
index 2f94352..a54cbbb 100644
--- a/src/lve/mlle_lve_file.c
+++ b/src/lve/mlle_lve_file.c
@@ -24,6 +24,24 @@
 #include "mlle_lve_file.h"
 #include "mlle_cr_decrypt.h"
 
+/* Check for '..' elements in a path: they would leave the library. */
+static int has_parent_element(const char *path)
+{
+    while (*path != '\0') {
+        size_t len = strcspn(path, "/\\");
+
+        if (len == 2 && path[0] == '.' && path[1] == '.') {
+            return 1;
+        }
+        path += len;
+        if (*path != '\0') {
+            path++;
+        }
+    }
+
+    return 0;
+}
+
 int
 mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
               const struct mlle_command *command)
@@ -55,6 +73,11 @@ mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
         goto CLEANUP;
     }
     rel_file_path = command->data;
+    if (has_parent_element(rel_file_path)) {
+        error_code = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
+        error_msg = "Path elements '..' may not be used.";
+        goto CLEANUP;
+    }
     snprintf(file_path, path_size, "%s/%s", lve_ctx->libpath, rel_file_path);
 
     file_buffer = mlle_io_read_file(file_path, &file_size, &error);
-- 
2.43.0


From cebfd756b07045a787b61fb773dc3c095249a97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:08 +0000
Subject: [PATCH 11/49] fix: don't crash in command line feature checkout

An option without its value read past the arguments, and a license manager that
could not be set up was reported over a connection that doesn't exist.
---
 src/lve/lve.c              | 10 ++++++++++
 src/lve/mlle_lve_feature.c |  8 +++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lve/lve.c b/src/lve/lve.c
index 6d5e7a1..dce0de5 100644
--- a/src/lve/lve.c
+++ b/src/lve/lve.c
@@ -20,6 +20,7 @@
 #include <stddef.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 /* libcrypto-compat.h must be first */
 #include "asprintf.h"
@@ -233,6 +234,11 @@ int main(int argc, char **argv)
                 goto error;
             }
             i++;
+            if (i >= argc) {
+                fprintf(stderr,
+                        "Error: Option --checkout-feature requires a value");
+                goto error;
+            }
             checkout_feature_sz =
                 (strlen(argv[i]) + 1) * sizeof(*checkout_feature);
             checkout_feature = malloc(checkout_feature_sz);
@@ -250,6 +256,10 @@ int main(int argc, char **argv)
                 goto error;
             }
             i++;
+            if (i >= argc) {
+                fprintf(stderr, "Error: Option --libpath requires a value");
+                goto error;
+            }
             libpath_sz = (strlen(argv[i]) + 1) * sizeof(*libpath);
             libpath = malloc(libpath_sz);
             if (libpath == NULL) {
diff --git a/src/lve/mlle_lve_feature.c b/src/lve/mlle_lve_feature.c
index 68a7c9d..eca7082 100644
--- a/src/lve/mlle_lve_feature.c
+++ b/src/lve/mlle_lve_feature.c
@@ -59,7 +59,13 @@ mlle_lve_feature(struct mlle_lve_ctx *lve_ctx,
     struct mlle_error *error = NULL;
     int success = 0;
 
-    if (!mlle_lve_setup_licensing_check_error(lve_ctx)) {
+    if (is_in_checkout_feature_without_tool_mode) {
+        /* There is no connection to send an error to. */
+        if (!mlle_lve_setup_licensing(lve_ctx, &error)) {
+            mlle_error_free(&error);
+            return 0;
+        }
+    } else if (!mlle_lve_setup_licensing_check_error(lve_ctx)) {
         return 0;
     }
 
-- 
2.43.0


From 527827203a23c8b7577d1be04bf49ccf7e8c58e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:09 +0000
Subject: [PATCH 12/49] fix: pass the space left to snprintf when listing
 expected commands

---
 src/tool/mlle_licensing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index b2648b3..41d1501 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -177,7 +177,7 @@ mlle_expect_commands(SSL *ssl,
                     mlle_command_info[command->id].name,
                     mlle_command_info[expected_command_ids[0]].name);
             for (i = 1; i < ncommands; i++) {
-                written_bytes += snprintf(&err_msg[written_bytes], alloc_size,", %s",
+                written_bytes += snprintf(&err_msg[written_bytes], alloc_size - written_bytes,", %s",
                         mlle_command_info[expected_command_ids[i]].name);
             }
         }
-- 
2.43.0


From 3d3f1ee006be36414c98a11758bb264fd6c6056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:04 +0000
Subject: [PATCH 13/49] fix: keep carriage return bytes of the random
 encryption key when it is embedded

---
 src/embedfile/obfuscate_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index 32046bd..fc3763d 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -70,9 +70,10 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
     size_t i = 0, j = 0;
     FILE *out = NULL;
 
-    /* Remove \r from the string to support windows generated pem files */
+    /* Remove \r from the string to support windows generated pem files.
+     * The encryption key is random bytes, not text. */
     for (; i < len; ++i) {
-        if (data[i] == '\r')
+        if (type != ENCRYPT && data[i] == '\r')
             continue;
         if (i != j)
             data[j] = data[i];
-- 
2.43.0


From ec9907fdec3829ae29c0cdaca625fb1bef18d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:25 +0000
Subject: [PATCH 14/49] fix: clear the whole embedded key also when carriage
 returns were removed

---
 src/embedfile/obfuscate_utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index fc3763d..a82a9db 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -81,6 +81,7 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
     }
     if (j < len)
         data[j] = 0;
+    len = j;
 
     out = open_or_exit(filename, "wb");
 
-- 
2.43.0


From 70c037dea399df3158ffbc9243d4d0e6392ceff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:26 +0000
Subject: [PATCH 15/49] fix: clear received data on every path through
 ssl_read_message

---
 src/common/mlle_ssl.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index a7de6d3..bdd9bc1 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -358,6 +358,12 @@ int ssl_read_message(SSL *ssl, char **messageBuffer, int *errorCode)
             else
             {
                 // Client has shutdown, I/O error or similar.
+                memset(tmpBuffer, 0, sizeof(tmpBuffer));
+                if (buffer != NULL)
+                {
+                    memset(buffer, 0, bufferLen);
+                    free(buffer);
+                }
                 return errorResult;
             }
         }
@@ -376,6 +382,12 @@ int ssl_read_message(SSL *ssl, char **messageBuffer, int *errorCode)
             buffer = malloc(neededSpace);
             if (buffer == NULL)
             {
+                memset(tmpBuffer, 0, sizeof(tmpBuffer));
+                if (tmpPointer != NULL)
+                {
+                    memset(tmpPointer, 0, bufferLen);
+                    free(tmpPointer);
+                }
                 return -1;
             }
 
@@ -390,6 +402,7 @@ int ssl_read_message(SSL *ssl, char **messageBuffer, int *errorCode)
                 free(tmpPointer);
                 tmpPointer = NULL;
             }
+            bufferLen = neededSpace;
         }
 
         // Copy data
-- 
2.43.0


From 724bc7853c21d3d1bdc84467ab9f0eac66195d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:49 +0000
Subject: [PATCH 16/49] Name the loops that carry an invariant under
 verification (SEMLA_VERIF)

---
 src/common/mlle_ssl.c                        |  3 ++
 src/common/mlle_utils.c                      |  3 ++
 src/common/semla_verif.h                     | 31 ++++++++++++++++++++
 src/decryptors/default/src/mlle_cr_decrypt.c |  2 ++
 src/decryptors/default/src/mlle_cr_encrypt.c |  3 ++
 src/embedfile/obfuscate_utils.c              |  2 ++
 src/lve/mlle_lve.c                           |  2 ++
 src/lve/mlle_lve_file.c                      |  2 ++
 src/lve/mlle_lve_libpath.c                   |  2 ++
 9 files changed, 50 insertions(+)
 create mode 100644 src/common/semla_verif.h

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index bdd9bc1..61bf4ef 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -37,6 +37,7 @@
 #include "mlle_lve.h"
 #include "mlle_ssl.h"
 #include "mlle_error.h"
+#include "semla_verif.h"
 
 char *global_tool_pub_key;
 
@@ -269,6 +270,7 @@ int ssl_write_message(SSL *ssl, char *message, size_t len)
 
     while ((bytes = SSL_write(ssl, message, (int)len)) < 0)
     {
+        VERIF_LOOP(ssl_write)
         errorCode = SSL_get_error(ssl, bytes);        
 
         // If we get a SSL_ERROR_WANT_WRITE error then the
@@ -321,6 +323,7 @@ int ssl_read_message(SSL *ssl, char **messageBuffer, int *errorCode)
     
     while(keepReading)
     {
+        VERIF_LOOP(ssl_read)
         // Read data. Number of bytes read is returned.
         noOfBytes = SSL_read(ssl, &tmpBuffer, MSG_SIZE - 1);
 
diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 2dbdb6e..39fda71 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -23,6 +23,7 @@
 #include "libcrypto-compat.h"
 #include "mlle_io.h"
 #include "mlle_parse_command.h"
+#include "semla_verif.h"
 
 #define SSL_RECORD_SIZE (16400)
 #define CMD_BUFFER_SIZE (MLLE_PROTOCOL_MAX_COMMAND_LINE_SIZE + 1)
@@ -56,6 +57,7 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
     // empty lines before the command. The buffer isn't null terminated.
     while (line_start < buffer_len && buffer[line_start] == '\n')
     {
+        VERIF_LOOP(skip_empty_lines)
         line_start++;
     }
     data_part = memchr(buffer + line_start, '\n', buffer_len - line_start);
@@ -173,6 +175,7 @@ int mlle_read_command(SSL *ssl,
     // -----------------------------
     while (totalBytesRead < command->length)
     {
+        VERIF_LOOP(read_more)
         // Read more data.
         bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
         if (bytesRead <= 0)
diff --git a/src/common/semla_verif.h b/src/common/semla_verif.h
new file mode 100644
index 0000000..fbe225c
--- /dev/null
+++ b/src/common/semla_verif.h
@@ -0,0 +1,31 @@
+/*
+    Copyright (C) 2022 Modelica Association
+
+    This program is free software: you can redistribute it and/or modify
+    it under the terms of the BSD style license.
+
+     This program is distributed in the hope that it will be useful,
+    but WITHOUT ANY WARRANTY; without even the implied warranty of
+    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+    BSD_License.txt file for more details.
+
+    You should have received a copy of the BSD_License.txt file
+    along with this program. If not, contact Modelon AB <http://www.modelon.com>.
+*/
+
+#ifndef SEMLA_VERIF_H_
+#define SEMLA_VERIF_H_
+
+/*
+ * Names the loops that carry an invariant when the code is verified.
+ * SEMLA_VERIF is only defined by a verifier, which then supplies
+ * semla_loops.h with the invariants. Expands to nothing otherwise.
+ */
+#ifdef SEMLA_VERIF
+#include "semla_loops.h"
+#define VERIF_LOOP(name) VERIF_LOOP_##name
+#else
+#define VERIF_LOOP(name)
+#endif
+
+#endif /* SEMLA_VERIF_H_ */
diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 914ede1..a92674e 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -31,6 +31,7 @@
 #include "mlle_portability.h"
 #include "mlle_io.h"
 #include "mlle_error.h"
+#include "semla_verif.h"
 
 
 mlle_cr_context* mlle_cr_create(const char* basedir) {
@@ -89,6 +90,7 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     }
 
     while (rel_file_path[i] && (i < MLLE_LONG_FILE_NAME_MAX)) {
+        VERIF_LOOP(demask_path)
         ch = rel_file_path[i];
         path[i] = ch;
         if ((ch == '/') || (ch == '\\')) {
diff --git a/src/decryptors/default/src/mlle_cr_encrypt.c b/src/decryptors/default/src/mlle_cr_encrypt.c
index a91c6c3..db4d611 100644
--- a/src/decryptors/default/src/mlle_cr_encrypt.c
+++ b/src/decryptors/default/src/mlle_cr_encrypt.c
@@ -29,6 +29,7 @@
 #include "mlle_cr_decrypt.h"
 #include "mlle_cr_context.h"
 #include "mlle_error.h"
+#include "semla_verif.h"
 
 #include "random_key_file.h"
 
@@ -94,6 +95,7 @@ int mlle_mask_key(mlle_cr_context* context, const char* rel_file_path, unsigned
 
 
     while (rel_file_path[i] && (i < MLLE_LONG_FILE_NAME_MAX)) {
+        VERIF_LOOP(mask_path)
         ch = rel_file_path[i];
         path[i] = ch;
         if ((ch == '/') || (ch == '\\')) {
@@ -259,6 +261,7 @@ int mlle_cr_encrypt(mlle_cr_context* context,
 
     /* Process file. */
     while (!feof(in)) {
+        VERIF_LOOP(encrypt_data)
         /* Read cleartext data. */
         read_len = (int) fread(read_buf, 1, READ_BUF_LEN, in);
         if (read_len < READ_BUF_LEN && ferror(in))
diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index a82a9db..9d86003 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -32,6 +32,7 @@
 #include <ctype.h>
 
 #include "obfuscate_utils.h"
+#include "semla_verif.h"
 
 /***********************************
  * Open a file or exit on error.
@@ -73,6 +74,7 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
     /* Remove \r from the string to support windows generated pem files.
      * The encryption key is random bytes, not text. */
     for (; i < len; ++i) {
+        VERIF_LOOP(strip_cr)
         if (type != ENCRYPT && data[i] == '\r')
             continue;
         if (i != j)
diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 92b131b..74d709d 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -37,6 +37,7 @@
 #include "mlle_types.h"
 #include "openssl/err.h"
 #include "mlle_portability.h"
+#include "semla_verif.h"
 #include <openssl/rsa.h>
 #include <openssl/x509v3.h>
 #include <openssl/evp.h>
@@ -193,6 +194,7 @@ int mlle_lve_receive(struct mlle_lve_ctx *lve_ctx)
 
     while (bytesRead != LE_EOF)
     {
+        VERIF_LOOP(lve_receive)
         if (bytesRead == LE_LINE_TOO_LONG)
         {
             snprintf(error_msg, ERROR_SIZE,
diff --git a/src/lve/mlle_lve_file.c b/src/lve/mlle_lve_file.c
index a54cbbb..e569458 100644
--- a/src/lve/mlle_lve_file.c
+++ b/src/lve/mlle_lve_file.c
@@ -23,11 +23,13 @@
 #include "mlle_io.h"
 #include "mlle_lve_file.h"
 #include "mlle_cr_decrypt.h"
+#include "semla_verif.h"
 
 /* Check for '..' elements in a path: they would leave the library. */
 static int has_parent_element(const char *path)
 {
     while (*path != '\0') {
+        VERIF_LOOP(parent_element)
         size_t len = strcspn(path, "/\\");
 
         if (len == 2 && path[0] == '.' && path[1] == '.') {
diff --git a/src/lve/mlle_lve_libpath.c b/src/lve/mlle_lve_libpath.c
index 4722f22..bf014df 100644
--- a/src/lve/mlle_lve_libpath.c
+++ b/src/lve/mlle_lve_libpath.c
@@ -32,6 +32,7 @@
 #include "mlle_lve.h"
 #include "mlle_lve_libpath.h"
 #include "mlle_protocol.h"
+#include "semla_verif.h"
 
 #ifdef MLLE_GLOBAL_LICENSE_FEATURE
 #include "mlle_license_manager.h"
@@ -89,6 +90,7 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
     // Trim trailing slash
     last = lve_ctx->libpath[path_size - 1];
     while (path_size > 1 && (last == '\\' || last == '/')) {
+        VERIF_LOOP(trim_slash)
         path_size--;
         lve_ctx->libpath[path_size] = '\0';
         last = lve_ctx->libpath[path_size - 1];
-- 
2.43.0


From 55da1cff741170bbf11a939504aeedacc594c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:51 +0000
Subject: [PATCH 17/49] fix: fail encryption when no random bytes are available

---
 src/decryptors/default/src/mlle_cr_encrypt.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decryptors/default/src/mlle_cr_encrypt.c b/src/decryptors/default/src/mlle_cr_encrypt.c
index db4d611..3775cec 100644
--- a/src/decryptors/default/src/mlle_cr_encrypt.c
+++ b/src/decryptors/default/src/mlle_cr_encrypt.c
@@ -133,7 +133,9 @@ int mlle_mask_key(mlle_cr_context* context, const char* rel_file_path, unsigned
         }
 
         /* Create and store key mask for this directory */
-        RAND_bytes(store_mask, MLLE_CR_KEY_LEN);
+        if (RAND_bytes(store_mask, MLLE_CR_KEY_LEN) != 1) {
+            return -1;
+        }
         map_item = (struct mlle_key_mask_map*)calloc(1, sizeof(struct mlle_key_mask_map) + rel_path_len + 1);
         if (map_item == NULL) {
             return -1;
@@ -237,7 +239,8 @@ int mlle_cr_encrypt(mlle_cr_context* context,
 
     /* Create IV and write it to file. */
     iv = (unsigned char*) malloc(iv_len);
-    RAND_bytes(iv, iv_len);
+    if (!iv || RAND_bytes(iv, iv_len) != 1)
+        goto error;
     if (fwrite(iv, iv_len, 1, out) < 1)
         goto error;
 
-- 
2.43.0


From 49814e6aeb6143a549db7d4dd7069ebfa6540eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:13 +0000
Subject: [PATCH 18/49] fix: fail file encryption and decryption when the
 output can't be written

---
 src/encrypt_decrypt/decrypt_file.c | 4 ++--
 src/encrypt_decrypt/encrypt_file.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index 0d09cf4..7c794fd 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -91,8 +91,8 @@ int main(int argc, char** argv)
     /* Close files. */
     if (in != NULL)
         fclose(in);
-    if (out != NULL)
-        fclose(out);
+    if (out != NULL && fclose(out) != 0)
+        res = 1;
     if (out != NULL && res != 0)
         remove(argv[3]);
 
diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index a55e112..9e5a879 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -116,8 +116,8 @@ int main(int argc, char** argv)
     /* Close files. */
     if (in != NULL)
         fclose(in);
-    if (out != NULL)
-        fclose(out);
+    if (out != NULL && fclose(out) != 0)
+        res = 1;
     if (out != NULL && res != 0)
         remove(pathdest);
 
-- 
2.43.0


From 65a4c4727fb21a803f02e977f2c401618a0ebe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:27 +0000
Subject: [PATCH 19/49] fix: clear and free received messages in
 mlle_read_command

---
 src/common/mlle_utils.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 39fda71..4e7a8fd 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -88,6 +88,19 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
     return data_len;
 }
 
+/****************************************
+ * Clear and free a received message.
+ ***************************************/
+static void release_message(char **buffer, int length)
+{
+    if (*buffer != NULL && length > 0)
+    {
+        memset(*buffer, 0, length);
+    }
+    free(*buffer);
+    *buffer = NULL;
+}
+
 /****************************************
  * Read a command.
  *
@@ -107,15 +120,7 @@ int mlle_read_command(SSL *ssl,
     int errorCode = 0;
     char *messageBuffer = NULL;
 
-    // The SSL buffer can hold at most 16 kb of data.
-    messageBuffer = calloc(SSL_RECORD_SIZE, 1);
-    if (messageBuffer == NULL) 
-    {
-        mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the message buffer");
-        return 0;
-    }
-
-    // Read data from SSL.
+    // Read data from SSL. The message buffer is allocated by ssl_read_message.
     bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
 
     // Check for error.
@@ -123,6 +128,7 @@ int mlle_read_command(SSL *ssl,
     {
         ssl_get_error_string(errorCode, error_msg, ERROR_SIZE);
         mlle_error_set_literal(error, 1, 1, error_msg);
+        release_message(&messageBuffer, bytesRead);
         return 0;
     }
 
@@ -131,6 +137,7 @@ int mlle_read_command(SSL *ssl,
     if (token_buffer == NULL) 
     {
         mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the token buffer");
+        release_message(&messageBuffer, bytesRead);
         return 0;
     }
     memcpy(token_buffer, messageBuffer, bytesRead);
@@ -152,6 +159,7 @@ int mlle_read_command(SSL *ssl,
         {
             mlle_error_set_literal(error, 1, 1, error_msg);
         }
+        release_message(&messageBuffer, bytesRead);
         return 0;
     }
     assert(command->id != MLLE_PROTOCOL_UNDEFINED_CMD);
@@ -166,15 +174,19 @@ int mlle_read_command(SSL *ssl,
         if (command->data == NULL)
         {
             mlle_error_set_literal(error, 1, 1, "End Of File.");
+            release_message(&messageBuffer, bytesRead);
             return 0;
         }
     }
+    release_message(&messageBuffer, bytesRead);
 
     // -----------------------------
     // Are there more data to read?
     // -----------------------------
     while (totalBytesRead < command->length)
     {
+        int messageLength = 0;
+
         VERIF_LOOP(read_more)
         // Read more data.
         bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
@@ -187,6 +199,8 @@ int mlle_read_command(SSL *ssl,
             return 0;
         }
 
+        messageLength = bytesRead;
+
         // Never take more than what is left of the announced length.
         if ((size_t) bytesRead > command->length - totalBytesRead)
         {
@@ -196,6 +210,7 @@ int mlle_read_command(SSL *ssl,
         // Add data to command buffer.
         memcpy(command->data + totalBytesRead, messageBuffer, bytesRead);
         totalBytesRead += bytesRead;
+        release_message(&messageBuffer, messageLength);
     }
 
     return 1;
-- 
2.43.0


From 992a1da16b8363fe542f3838b6a2fd21e7e985a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:27 +0000
Subject: [PATCH 20/49] fix: don't drop the last byte of a received command
 line

---
 src/common/mlle_utils.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 4e7a8fd..511cc7a 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -141,7 +141,6 @@ int mlle_read_command(SSL *ssl,
         return 0;
     }
     memcpy(token_buffer, messageBuffer, bytesRead);
-    token_buffer[bytesRead - 1] = 0;
 
     // Parse command.
     grammar_error = mlle_parse_command(token_buffer, command, error_msg, ERROR_SIZE);
-- 
2.43.0


From 79870e3b6c52f6ae4ef3e1a591fc2f1a67033b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:27 +0000
Subject: [PATCH 21/49] fix: free the payload of replies the tool doesn't hand
 out

---
 src/tool/mlle_licensing.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index 41d1501..ed917f4 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -126,6 +126,8 @@ mlle_expect_command(SSL *ssl,
                 "Unexpected command. Expected command %s, but got command %s.",
                 mlle_command_info[expected_command_id].name,
                 mlle_command_info[command->id].name);
+        free(command->data);
+        command->data = NULL;
         return 0;
     }
 
@@ -183,6 +185,8 @@ mlle_expect_commands(SSL *ssl,
         }
         mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1, err_msg);
         free(err_msg);
+        free(command->data);
+        command->data = NULL;
         return 0;
     }
 
@@ -306,6 +310,7 @@ int mlle_tool_feature(const struct mlle_connections *connections,
     } else if (command.id == MLLE_PROTOCOL_NO_CMD) {
         mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, MLLE_TOOL_ERROR_NO_LICENSE,
                 "%s", command.data);
+        free(command.data);
         return 0;
     } else {
         /* Internal error. */
@@ -365,6 +370,7 @@ mlle_tool_license(const struct mlle_connections *connections,
     } else if (command.id == MLLE_PROTOCOL_NO_CMD) {
         mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, MLLE_TOOL_ERROR_NO_LICENSE,
                 "%s", command.data);
+        free(command.data);
         return 0;
     } else {
         /* Internal error. */
@@ -412,6 +418,7 @@ mlle_tool_file(const struct mlle_connections *connections,
     file_contents = calloc(1, sizeof(*file_contents));
     if (file_contents == NULL) {
         mlle_error_set_literal(error, 1, 1, "Out of memory.");
+        free(command.data);
         return NULL;
     }
     file_contents->file_size = command.length;
-- 
2.43.0


From 31a70d421141707feeaf3cee784168279a7599c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:27 +0000
Subject: [PATCH 22/49] fix: report an error when VERSION can't be sent

---
 src/tool/mlle_licensing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index ed917f4..ff0c61e 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -218,6 +218,8 @@ int mlle_tool_version(const struct mlle_connections *connections,
 
     if (mlle_send_number_form(connections->ssl, MLLE_PROTOCOL_VERSION_CMD, 
         max_protocol_version) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send command VERSION.");
         return 0;
     }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_VERSION_CMD, &command, error)) {
-- 
2.43.0


From 4aa8496068e5c833513060ce8b80ad031e53a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:27 +0000
Subject: [PATCH 23/49] fix: don't wait forever for an executable that has
 ended

---
 src/tool/mlle_spawn_posix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index 3046735..edacc61 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -98,7 +98,9 @@ mlle_spawn(const char *exec_name,
         break;
 
     default:
+        // Keep only our ends, to see it when the executable ends.
         close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
         connections = calloc(1, sizeof(*connections));
         if (connections != NULL) {
             connections->fd_to_child = parent_to_child_pipe_fd[PIPE_WRITE_INDEX];
-- 
2.43.0


From 1c08bd8437f03c2957fbcb62e8e7de1a7681903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:27 +0000
Subject: [PATCH 24/49] fix: set the error text also when OpenSSL gives no
 reason

---
 src/common/mlle_ssl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index 61bf4ef..15862a7 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -459,6 +459,9 @@ void ssl_get_error_string(int error_code, char *error, size_t error_len)
             break;
     }
 
+    // There may be no reason on the queue, e.g. at an unexpected end of file.
+    snprintf(error, error_len, "%s", err_str);
+
     while ((error_value = ERR_get_error()) > 0)
     {
         snprintf(error, error_len, "%s. reason: %s", err_str, (char*) ERR_reason_error_string(error_value));
-- 
2.43.0


From edfae12db84811b5ea37911bb9be491c127aaa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:26 +0000
Subject: [PATCH 25/49] fix: clear the copy of a received message before it is
 freed

---
 src/common/mlle_utils.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 511cc7a..1571b2f 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -145,8 +145,7 @@ int mlle_read_command(SSL *ssl,
     // Parse command.
     grammar_error = mlle_parse_command(token_buffer, command, error_msg, ERROR_SIZE);
 
-    free(token_buffer);
-    token_buffer = NULL;
+    release_message(&token_buffer, bytesRead);
 
     if (grammar_error != LE_VALID_GRAMMAR)
     {
-- 
2.43.0


From dce232c6e1dc6684f24323dfeb3b09ea227918c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:38 +0000
Subject: [PATCH 26/49] fix: don't crash in obfuscate when the key file is
 missing

---
 src/embedfile/obfuscate.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/embedfile/obfuscate.c b/src/embedfile/obfuscate.c
index ca397fe..d4ded9a 100644
--- a/src/embedfile/obfuscate.c
+++ b/src/embedfile/obfuscate.c
@@ -22,6 +22,7 @@
 #endif
 #endif
 
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <sys/stat.h>
@@ -131,8 +132,8 @@ void read_file(char* file, char** buf, size_t* len) {
     // Get size of file.
     staterr = stat(file, &fileInfo);
     if (staterr != 0) {
-        fprintf(stderr, "Could not get info on %s\n", *file);
-        fprintf(stderr, "ERROR [%d] %s", staterr, strerror(staterr));
+        fprintf(stderr, "Could not get info on %s\n", file);
+        fprintf(stderr, "ERROR [%d] %s", errno, strerror(errno));
         exit(1);
     }
     *len = fileInfo.st_size;
-- 
2.43.0


From 2aa11c2d6a6cec07b777f5cc8c58653e93122593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:38 +0000
Subject: [PATCH 27/49] fix: fail when the key header can't be written

---
 src/embedfile/obfuscate_utils.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index 9d86003..70157be 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -70,6 +70,7 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
 {
     size_t i = 0, j = 0;
     FILE *out = NULL;
+    int failed = 0;
 
     /* Remove \r from the string to support windows generated pem files.
      * The encryption key is random bytes, not text. */
@@ -99,5 +100,10 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
 
     write_header_extra(out, type);
 
-    fclose(out);
+    failed = ferror(out);
+    if (fclose(out) != 0 || failed)
+    {
+        fprintf(stderr, "Could not write file '%s'.", filename);
+        exit(1);
+    }
 }
-- 
2.43.0


From 7c159098df41eb979e8e5d72dc10903381940654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:38 +0000
Subject: [PATCH 28/49] fix: don't crash in randomize_key when out of memory

---
 src/embedfile/randomize_key.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/embedfile/randomize_key.c b/src/embedfile/randomize_key.c
index f70190d..4cd6749 100644
--- a/src/embedfile/randomize_key.c
+++ b/src/embedfile/randomize_key.c
@@ -114,6 +114,12 @@ char *generate_random_bytes(int len)
 {
     char *data = calloc(len, sizeof(char));
     
+    if (data == NULL)
+    {
+        fprintf(stderr, "Out of memory.\n");
+        return NULL;
+    }
+
     // Generate random bytes.
     if (RAND_bytes(data, len) < 1)
     {
-- 
2.43.0


From 5e37c1ebacda43be5baa244d5adc911da3596f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:38 +0000
Subject: [PATCH 29/49] Name the loop that writes a key (SEMLA_VERIF)

---
 src/obfuscators/dummy/src/obfuscator.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/obfuscators/dummy/src/obfuscator.c b/src/obfuscators/dummy/src/obfuscator.c
index db9f502..9abfd60 100644
--- a/src/obfuscators/dummy/src/obfuscator.c
+++ b/src/obfuscators/dummy/src/obfuscator.c
@@ -18,6 +18,12 @@
 
 #include <stdio.h>
 
+#ifdef SEMLA_VERIF
+#include "semla_verif.h"
+#else
+#define VERIF_LOOP(name)
+#endif
+
 void write_initialize_key_macro_body(FILE* out, 
                                      key_type type, 
                                      char* buffer_name, 
@@ -26,6 +32,7 @@ void write_initialize_key_macro_body(FILE* out,
     int i;
     
     for (i = 0; i < data_len; i++) {
+        VERIF_LOOP(write_key)
         fprintf(out, "%s[%u] = '\\x%x'; ", buffer_name, i, (unsigned int) data[i]);
     }
 }
-- 
2.43.0


From 22669fd1e603260d14fda1422d636f986b36b7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:04 +0000
Subject: [PATCH 30/49] fix: get_public_key does not use memory it did not get

---
 src/common/mlle_ssl.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index 15862a7..c0b0131 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -185,8 +185,11 @@ char* get_public_key(RSA *rsa)
         public_key = (char*)malloc(key_length + 1);
 
         // Read from memory to array.
-        BIO_read(mem, public_key, key_length);
-        public_key[key_length] = '\0';
+        if (public_key != NULL)
+        {
+            BIO_read(mem, public_key, key_length);
+            public_key[key_length] = '\0';
+        }
     }
 
     BIO_free(mem);
-- 
2.43.0


From ed626ff6eafd2ec07641dd44531267d9fb9ae3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:04 +0000
Subject: [PATCH 31/49] fix: handshake error text stays valid after
 lve_perform_handshake returns

---
 src/lve/mlle_ssl_lve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lve/mlle_ssl_lve.c b/src/lve/mlle_ssl_lve.c
index dbb0582..e8c66d4 100644
--- a/src/lve/mlle_ssl_lve.c
+++ b/src/lve/mlle_ssl_lve.c
@@ -209,7 +209,8 @@ int lve_perform_handshake(struct mlle_lve_ctx *lve_ctx)
 {
     int result = 0;
     int errorCode = 0;
-    char errorString[SSL_ERROR_BUF_LEN];
+    // Static, lve_ctx refers to it after the return.
+    static char errorString[SSL_ERROR_BUF_LEN];
 
     if ( (lve_ctx == NULL) || (lve_ctx->ssl == NULL) )
     {
-- 
2.43.0


From 3043e35653a4d801fc2dd139f24934c82d20d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:04 +0000
Subject: [PATCH 32/49] fix: mlle_spawn closes its pipes when starting the
 executable fails

---
 src/tool/mlle_spawn_posix.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index edacc61..d335535 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -66,6 +66,8 @@ mlle_spawn(const char *exec_name,
     status = pipe(child_to_parent_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
+        close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
         return NULL;
     }
 
@@ -73,6 +75,10 @@ mlle_spawn(const char *exec_name,
     switch (child_pid) {
     case -1:
         mlle_error_set_literal(error, 1, 1, "fork() failed.");
+        close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_READ_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
         return NULL;
 
     case 0:
@@ -107,6 +113,8 @@ mlle_spawn(const char *exec_name,
             connections->fd_from_child = child_to_parent_pipe_fd[PIPE_READ_INDEX];
         } else {
             mlle_error_set_literal(error, 1, 1, "Out of memory.");
+            close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
+            close(child_to_parent_pipe_fd[PIPE_READ_INDEX]);
         }
     }
 
-- 
2.43.0


From 7a89e0bf4412b83c14b242770f47ab6897e021c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:04 +0000
Subject: [PATCH 33/49] fix: mlle_io_read_file closes the file when it gives up

---
 src/common/mlle_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index ee7325e..156d527 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -142,6 +142,7 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
             error, 1, 1,
             "Couldn't find file size for %s. The error message was: %s",
             file_path, strerror(errno));
+        fclose(file);
         return NULL;
     }
     size = stat_info.st_size;
@@ -150,6 +151,7 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
     if (file_buffer == NULL) {
         mlle_error_set(error, 1, 1, "Couldn't allocate memory to read file: %s",
                        file_path);
+        fclose(file);
         return NULL;
     }
 
-- 
2.43.0


From 459efab09edf4f7ffa7a19e2ab681818d4bfc0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:57 +0000
Subject: [PATCH 34/49] fix: mlle_lve_shutdown does not crash when there is no
 connection

---
 src/lve/mlle_lve.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 74d709d..9baf63e 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -271,8 +271,10 @@ void mlle_lve_shutdown(struct mlle_lve_ctx *lve_ctx)
     */
     free(lve_ctx->libpath);
 
-    SSL_shutdown (lve_ctx->ssl);
-    SSL_free (lve_ctx->ssl);
+    if (lve_ctx->ssl != NULL) {
+        SSL_shutdown (lve_ctx->ssl);
+        SSL_free (lve_ctx->ssl);
+    }
 
     fflush(NULL);
 }
-- 
2.43.0


From 2889a019e8fd851d39ee98893e6c7c27ca83bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:58 +0000
Subject: [PATCH 35/49] fix: an icon in a subdirectory of the library is found

---
 src/packagetool/utils.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index e26cbdc..dbfc4ae 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -685,10 +685,8 @@ int locateIconFile()
     result = findFileLinux(filename, getCopiedSourcePath());
 #endif
 
-    // Abort if we didn't find the file.
-    if (pathToIcon == NULL) {
-        result = 0;
-    }
+    // Abort if we didn't find the file (it can be in any subdirectory).
+    result = (pathToIcon != NULL);
 
     return result;
 }
-- 
2.43.0


From 2018b1f91e4ebff687908ace5568c27501f7e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:58 +0000
Subject: [PATCH 36/49] fix: the icon path in the manifest is relative to the
 library, whatever TMPDIR is

---
 src/packagetool/utils.c | 63 +++++++++++------------------------------
 1 file changed, 17 insertions(+), 46 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index dbfc4ae..ba22edc 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1584,11 +1584,9 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
  *********************************************************/
 int cleanUpIconPath()
 {
-    char *tmpDir = NULL;
-    char *tmpBuf = NULL;
-    char *ptr1, *ptr2 = NULL;
-    size_t path_len = 0;
-    int i = 0;
+    char *ptr = NULL;
+    size_t src_len = 0;
+    size_t i = 0;
 
     // Safety check.
     if (pathToIcon == NULL) {
@@ -1596,55 +1594,28 @@ int cleanUpIconPath()
         return 0;
     }
 
-    tmpBuf = pathToIcon;
-
-// Get the tmp path.
-#ifdef WIN32
-    tmpDir = getenv("TEMP");
-#else
-    tmpDir = getenv("TMPDIR");
-    if (tmpDir == NULL) {
-        tmpDir = "/tmp";
+    // The icon was found below the copied source folder.
+    src_len = strlen(getCopiedSourcePath());
+    if (strlen(pathToIcon) <= src_len + 1) {
+        return 0;
     }
-#endif
-
-    // Point to icon path.
-    ptr1 = tmpBuf;
 
-    // Step forward to after temp folders.
-    ptr1 += strlen(tmpDir) + 1;
+    // Step forward to after the library name and its slash.
+    ptr = pathToIcon + src_len + 1;
 
-    if (ptr1 && *ptr1) {
-        // Point to next slash.
 #ifdef WIN32
-        ptr2 = strchr(ptr1, '\\');
-
-        // replace '\\' with '/' according to spec
-        while (ptr2[i]) {
-            if (ptr2[i] == '\\') {
-                ptr2[i] = '/';
-            }
-            i++;
-        }
-#else
-        ptr2 = strchr(ptr1, '/');
-#endif
-
-        // Step forward to after library name.
-        ++ptr2;
-
-        if (ptr2 && *ptr2) {
-            // Create icon path without tmp or library name.
-            path_len = strlen(ptr2) + 1;
-            pathToIcon = malloc(path_len);
-            snprintf(pathToIcon, path_len, "%s", ptr2);
-            return 1;
+    // replace '\\' with '/' according to spec
+    for (i = 0; ptr[i]; i++) {
+        if (ptr[i] == '\\') {
+            ptr[i] = '/';
         }
     }
+#endif
 
-    free(tmpBuf);
+    // Keep the icon path without tmp or library name.
+    memmove(pathToIcon, ptr, strlen(ptr) + 1);
 
-    return 0;
+    return 1;
 }
 
 /*****************************************************
-- 
2.43.0


From b5c8c8e39a1ddd67ec16499db5aff1e5fb62551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:58 +0000
Subject: [PATCH 37/49] fix: packagetool does not crash when it can't make its
 temporary folder

---
 src/packagetool/utils.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index ba22edc..9d615d4 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -165,9 +165,14 @@ static char *getTempDirWin32()
 static char *getTempDirLinux()
 {
     char TEMP_DIR_TEMPLATE[] = "/tmp/TemporaryFolderXXXXXX";
+    char *path = NULL;
 
     if (tempStagingFolder == NULL) {
-        tempStagingFolder = strdup(mkdtemp(TEMP_DIR_TEMPLATE));
+        path = mkdtemp(TEMP_DIR_TEMPLATE);
+        if (path == NULL) {
+            return NULL;
+        }
+        tempStagingFolder = strdup(path);
         DEBUG_PRINT("%s, tempStagingFolder = %s\n", __func__,
                     tempStagingFolder);
     }
-- 
2.43.0


From 846b80cae5810d86d02eeeaf7a1ea5c030c6fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:58 +0000
Subject: [PATCH 38/49] fix: encryptFile closes only open files and fails when
 the output can't be written

---
 src/packagetool/utils.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 9d615d4..838da00 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1276,7 +1276,8 @@ int isEncryptedFile(char *filename)
 int encryptFile(mlle_cr_context *context, const char *basedir,
                 const char *rel_file_path)
 {
-    FILE *in, *out;
+    FILE *in = NULL;
+    FILE *out = NULL;
     int result = 1;
     char file[LONG_FILE_NAME_MAX];
     char newFile[LONG_FILE_NAME_MAX];
@@ -1303,8 +1304,13 @@ int encryptFile(mlle_cr_context *context, const char *basedir,
         result = 0;
     }
 
-    fclose(in);
-    fclose(out);
+    if (in != NULL) {
+        fclose(in);
+    }
+    if ((out != NULL) && (fclose(out) != 0)) {
+        printf("Error: Couldn't write file %s.\n", newFile);
+        result = 0;
+    }
 
     return result;
 }
-- 
2.43.0


From b2e1bbabe009d1ab24fa46977811e1fb55b0950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:11 +0000
Subject: [PATCH 39/49] fix: packagetool refuses a file named Package.mo
 instead of leaving it out of an encrypted library

---
 src/packagetool/utils.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 838da00..4d366d2 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1055,7 +1055,15 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
-                strcasecmp(dir->d_name, "package.mo") != 0) {
+                strcmp(dir->d_name, "package.mo") != 0) {
+                // Only a file named exactly package.mo is found again when
+                // the library is decrypted.
+                if (strcasecmp(dir->d_name, "package.mo") == 0) {
+                    printf("Error: File %s in %s must be named package.mo.\n",
+                           dir->d_name, fullPath);
+                    result = 0;
+                    break;
+                }
                 if (relPath) {
                     snprintf(searchPath, MAX_PATH_LENGTH + 1, "%s/%s", relPath,
                              dir->d_name);
-- 
2.43.0


From 32771e4a3428ce3893550150df9c75e32934f598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:11 +0000
Subject: [PATCH 40/49] fix: packagetool fails when a file of the library can't
 be copied

---
 src/packagetool/utils.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 4d366d2..41bfbdd 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1996,10 +1996,15 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     if (mkdir(searchPathTo, 0777) == -1) {
                         printf("Error: Failed to create folder %s.\n",
                                searchPathTo);
+                        result = 0;
+                        break;
                     }
 
                     // Use recursive to check the folder we found.
-                    copyDirectoryLinux(searchPath, searchPathTo);
+                    if (!copyDirectoryLinux(searchPath, searchPathTo)) {
+                        result = 0;
+                        break;
+                    }
                 }
                 // Or a file?
                 else if (dir->d_type == DT_REG) {
@@ -2007,8 +2012,10 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
 
                     // file in new location.
                     snprintf(folderName, MAX_PATH_LENGTH, "%s/%s", toPath, dir->d_name);
-                    copyFile(searchPath, folderName);
-
+                    if (!copyFile(searchPath, folderName)) {
+                        result = 0;
+                        break;
+                    }
                 }
             }
         }
-- 
2.43.0


From 0cc14825732735ede4e934608407575f69695108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:11 +0000
Subject: [PATCH 41/49] fix: copyFile fails when the file was not read or
 written completely

---
 src/packagetool/utils.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 41bfbdd..dddfb49 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -2035,8 +2035,8 @@ int copyFile(char *fromPath, char *toPath)
     int status = 0;
     struct stat info;
     char *data = NULL;
-    int bytes = 0;
-    long buffSize = 0;
+    size_t bytes = 0;
+    size_t buffSize = 0;
     FILE *fdRead = NULL;
     FILE *fdWrite = NULL;
 
@@ -2071,6 +2071,7 @@ int copyFile(char *fromPath, char *toPath)
         printf("Error: When copying file: Failed to read from file "
                "\"%s\".\n",
                fromPath);
+        goto error;
     }
 
     fdWrite = fopen(toPath, "wb");
@@ -2080,11 +2081,12 @@ int copyFile(char *fromPath, char *toPath)
             toPath, strerror(errno));
         goto error;
     }
-    fwrite(data, sizeof(char), buffSize, fdWrite);
+    bytes = fwrite(data, sizeof(char), buffSize, fdWrite);
     if (bytes != buffSize) {
         printf("Error: When copying file: Failed to write to file "
                "\"%s\".\n",
                toPath);
+        goto error;
     }
 
 #ifndef WIN32
@@ -2099,8 +2101,11 @@ error:
     if (NULL != fdRead) {
         fclose(fdRead);
     }
-    if (NULL != fdWrite) {
-        fclose(fdWrite);
+    if ((NULL != fdWrite) && (0 != fclose(fdWrite))) {
+        printf("Error: When copying file: Failed to write to file "
+               "\"%s\".\n",
+               toPath);
+        result = 0;
     }
     free(data);
 
-- 
2.43.0


From d692f7967cc806642f8680fda1d365ff2abe3b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:39 +0000
Subject: [PATCH 42/49] fix: the manifest gets the tools and dependencies files
 whole, and creating it fails when it is incomplete

---
 src/packagetool/manifest.c | 83 ++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 26 deletions(-)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index 5b652b9..d802654 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -39,6 +39,8 @@ static int xml_indent;
 static int xml_in_attributes;
 /* Current XML generation state, true means we are have just printed a newline. */
 static int xml_on_new_line;
+/* Set when something that belongs in the manifest could not be added. */
+static int manifest_failed;
 
 #define XML_INDENT_STR "\t"
 
@@ -189,8 +191,14 @@ int createManifestFile()
     snprintf(pathAndFile, MAX_PATH_LENGTH + 1, "%s/manifest.xml", path);
 
     fd = fopen(pathAndFile, "w");
+    if (fd == NULL)
+    {
+        printf("Error: Couldn't open file %s for writing.\n", pathAndFile);
+        return 0;
+    }
 
     // Add data to file.
+    manifest_failed = 0;
     xml_init();
     addHeader();
     addLibraryHeader();
@@ -200,7 +208,19 @@ int createManifestFile()
     addDependencies();
     addFooter();
 
-    fclose(fd);
+    if (ferror(fd))
+    {
+        manifest_failed = 1;
+    }
+    if (fclose(fd) != 0)
+    {
+        manifest_failed = 1;
+    }
+    if (manifest_failed)
+    {
+        printf("Error: Couldn't write file %s.\n", pathAndFile);
+        return 0;
+    }
     return 1;
 }
 
@@ -324,6 +344,11 @@ void addEncryption()
         }
 
         platform = extractPlatform(lveList[i]);
+        if (platform == NULL)
+        {
+            manifest_failed = 1;
+            continue;
+        }
         snprintf(path_buf, MAX_PATH_LENGTH, ".library/%s", lveList[i]);
 
         xml_open("executable");
@@ -442,38 +467,44 @@ char *extractPlatform(char *fileName)
 void copyFileInformation(char *path)
 {
     FILE *xmlfile;
-    char ch;
-    int index = 0;
+    int ch;
     int firstLine = 1;
-    char lineBuffer[200] = {'\0'};
 
-    if ( (xmlfile = fopen(path, "r")))
+    if ( (xmlfile = fopen(path, "r")) == NULL)
+    {
+        printf("Error: Couldn't open file %s for reading.\n", path);
+        manifest_failed = 1;
+        return;
+    }
+
+    while ((ch = getc(xmlfile)) != EOF)
     {
-        ch = getc(xmlfile);
+        // Skip first line in the file.
+        if (!firstLine)
+        {
+            add_xml_indent();
+            fprintf(fd, "%c", ch);
+        }
 
-        while (ch != EOF)
+        if (ch == '\n')
         {
-            if (ch != '\n')
-            {
-                lineBuffer[index] = ch;
-                ++index;
-            }
-            else
-            {
-                // Skip first line in the file.
-                if (!firstLine)
-                {
-                    add_xml_indent();
-                    fprintf(fd, "%s\n", lineBuffer);
-                }
-
-                memset(&lineBuffer[0], 0, sizeof(lineBuffer));
-                index = 0;
-                firstLine = 0;
-            }
-            ch = getc(xmlfile);
+            xml_on_new_line = 1;
+            firstLine = 0;
         }
     }
+
+    // The last line may lack its newline.
+    if (!firstLine && !xml_on_new_line)
+    {
+        fprintf(fd, "\n");
+    }
+
+    if (ferror(xmlfile))
+    {
+        printf("Error: Couldn't read file %s.\n", path);
+        manifest_failed = 1;
+    }
+
     fclose(xmlfile);
     xml_on_new_line = 1;
 }
-- 
2.43.0


From a9e0cf674553aed469ffc91f3654e831f4a923ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:39 +0000
Subject: [PATCH 43/49] fix: an empty argument is refused without reading past
 its end

---
 src/packagetool/arguments.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/packagetool/arguments.c b/src/packagetool/arguments.c
index 1bca204..fc1b3eb 100644
--- a/src/packagetool/arguments.c
+++ b/src/packagetool/arguments.c
@@ -213,10 +213,13 @@ int validateArguments(int noOfArguments, char **arguments)
     for (i = 1; i < noOfArguments; i++)
     {
         ptr = arguments[i];
-        ++ptr;
+        if (*ptr)
+        {
+            ++ptr;
+        }
 
         // Is the argument valid.
-        if (ptr && *ptr && lookupArgument(ptr))
+        if (*ptr && lookupArgument(ptr))
         {
             // Safety check. If user trying to add an argument twice.
             if (containsKey(ptr))
-- 
2.43.0


From 5e310acd31ab7639e787c19a22c4b8771ad48a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:48 +0000
Subject: [PATCH 44/49] fix: packagetool fails when package.mo can't be opened
 instead of leaving it out

---
 src/packagetool/utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index dddfb49..258b43d 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1048,6 +1048,9 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
         } else {
             result = encryptFile(context, topLevelPath, "package.mo");
         }
+    } else if (errno != ENOENT) {
+        printf("Error: Couldn't open file %s for reading.\n", searchPath);
+        result = 0;
     }
 
     if (result && (d = opendir(fullPath))) {
-- 
2.43.0


From f032073f06887f8e88fe9a4f688cfa30106d08c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:17 +0000
Subject: [PATCH 45/49] Name the loops of packagetool that carry an invariant
 when verified (SEMLA_VERIF)

---
 src/packagetool/arguments.c | 2 ++
 src/packagetool/manifest.c  | 3 +++
 src/packagetool/utils.c     | 7 +++++++
 3 files changed, 12 insertions(+)

diff --git a/src/packagetool/arguments.c b/src/packagetool/arguments.c
index fc1b3eb..02eacf8 100644
--- a/src/packagetool/arguments.c
+++ b/src/packagetool/arguments.c
@@ -26,6 +26,7 @@
 #include <stdlib.h>
 #include "utils.h"
 #include <ctype.h>
+#include "semla_verif.h"
 
 
 // -------------------------------------------------------------------------
@@ -212,6 +213,7 @@ int validateArguments(int noOfArguments, char **arguments)
     // Iterate over all arguments.
     for (i = 1; i < noOfArguments; i++)
     {
+        VERIF_LOOP(args)
         ptr = arguments[i];
         if (*ptr)
         {
diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index d802654..ba4f8b6 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -30,6 +30,7 @@
 #include "arguments.h"
 #include "utils.h"
 #include "mlle_portability.h"
+#include "semla_verif.h"
 
 // The output file.
 FILE *fd;
@@ -55,6 +56,7 @@ static void print_escaped_text(const char* text)
     size_t len;
     
     for (i = 0, len = strlen(text); i < len; i++) {
+        VERIF_LOOP(manifest_text)
         switch (text[i]) {
         case '<':
             fprintf(fd, "&lt;");
@@ -479,6 +481,7 @@ void copyFileInformation(char *path)
 
     while ((ch = getc(xmlfile)) != EOF)
     {
+        VERIF_LOOP(manifest_copy)
         // Skip first line in the file.
         if (!firstLine)
         {
diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 258b43d..5b5315b 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -50,6 +50,7 @@
 #endif
 
 #include "mlle_portability.h"
+#include "semla_verif.h"
 
 // Encryption
 #include "mlle_cr_encrypt.h"
@@ -300,6 +301,7 @@ char *stringToLower(char *str)
     int i = 0;
 
     while (str[i]) {
+        VERIF_LOOP(lower)
         str[i] = tolower(str[i]);
         i++;
     }
@@ -777,6 +779,7 @@ static int removeFolderLinux(const char *path)
     }
 
     while (!status && (dirEntry = readdir(dir)) != NULL) {
+        VERIF_LOOP(remove_dir)
 
         DEBUG_PRINT("%s: Reading entry: %s, entryName: %s\n", __func__, path,
                     dirEntry->d_name);
@@ -1055,6 +1058,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
 
     if (result && (d = opendir(fullPath))) {
         while ((dir = readdir(d)) != NULL && (result == 1)) {
+            VERIF_LOOP(encrypt_dir)
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
@@ -1126,6 +1130,7 @@ int findFileLinux(const char *filename, const char *path)
 
     if ((d = opendir(searchPath))) {
         while ((dir = readdir(d)) != NULL) {
+            VERIF_LOOP(find_file)
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0) {
@@ -1539,6 +1544,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
     if ((d = opendir(searchPath))) {
         result = 1; // return 'success' for empty directory
         while ((dir = readdir(d)) != NULL) {
+            VERIF_LOOP(zip_dir)
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0) {
@@ -1975,6 +1981,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
 
     if ((d = opendir(searchPath))) {
         while ((dir = readdir(d)) != NULL) {
+            VERIF_LOOP(copy_dir)
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
-- 
2.43.0


From c8aa76054a144f7f3907a3a86a9f146c8e1f6cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:06 +0000
Subject: [PATCH 46/49] Name the loop that trims the library path (SEMLA_VERIF)

---
 src/packagetool/utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 5b5315b..fb3482f 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -280,6 +280,7 @@ int validatePath(char *path)
     // Trim trailing slash
     last = path[path_size - 1];
     while (path_size > 1 && (last == '\\' || last == '/')) {
+        VERIF_LOOP(trim_path)
         path_size--;
         path[path_size] = '\0';
         last = path[path_size - 1];
-- 
2.43.0


From 090a96b7675a476a03550d374914eac98eaed8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:33 +0000
Subject: [PATCH 47/49] fix: clearing of messages and keys is not left out by
 the compiler

The buffers are freed, or the function returns, right after the memset, and an
optimising compiler drops such a memset: in the release build file contents and
private keys stayed in memory. OPENSSL_cleanse and volatile writes are kept.
---
 src/common/mlle_io.c            |  4 ++--
 src/common/mlle_ssl.c           | 12 ++++++------
 src/common/mlle_utils.c         |  2 +-
 src/embedfile/obfuscate_utils.c |  4 +++-
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index 156d527..5372ab8 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -237,7 +237,7 @@ void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
         ssl_write_message(ssl, output, message_length);
     }
 
-    memset(output, 0, message_length);
+    OPENSSL_cleanse(output, message_length);
     free(output);
 }
 
@@ -280,7 +280,7 @@ void mlle_send_number_and_length_form(SSL *ssl,
         ssl_write_message(ssl, output, message_length);
     }
 
-    memset(output, 0, message_length);
+    OPENSSL_cleanse(output, message_length);
     free(output);
 }
 
diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index c0b0131..08ae073 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -364,10 +364,10 @@ int ssl_read_message(SSL *ssl, char **messageBuffer, int *errorCode)
             else
             {
                 // Client has shutdown, I/O error or similar.
-                memset(tmpBuffer, 0, sizeof(tmpBuffer));
+                OPENSSL_cleanse(tmpBuffer, sizeof(tmpBuffer));
                 if (buffer != NULL)
                 {
-                    memset(buffer, 0, bufferLen);
+                    OPENSSL_cleanse(buffer, bufferLen);
                     free(buffer);
                 }
                 return errorResult;
@@ -388,10 +388,10 @@ int ssl_read_message(SSL *ssl, char **messageBuffer, int *errorCode)
             buffer = malloc(neededSpace);
             if (buffer == NULL)
             {
-                memset(tmpBuffer, 0, sizeof(tmpBuffer));
+                OPENSSL_cleanse(tmpBuffer, sizeof(tmpBuffer));
                 if (tmpPointer != NULL)
                 {
-                    memset(tmpPointer, 0, bufferLen);
+                    OPENSSL_cleanse(tmpPointer, bufferLen);
                     free(tmpPointer);
                 }
                 return -1;
@@ -403,7 +403,7 @@ int ssl_read_message(SSL *ssl, char **messageBuffer, int *errorCode)
                 // Copy
                 memcpy(buffer, tmpPointer, totalBytesRead);
                 // Clear old message buffer
-                memset(tmpPointer, 0, bufferLen);
+                OPENSSL_cleanse(tmpPointer, bufferLen);
                 // Free old message buffer
                 free(tmpPointer);
                 tmpPointer = NULL;
@@ -420,7 +420,7 @@ int ssl_read_message(SSL *ssl, char **messageBuffer, int *errorCode)
     }
 
     // Clear read buffer.
-    memset(tmpBuffer, 0, sizeof(tmpBuffer));
+    OPENSSL_cleanse(tmpBuffer, sizeof(tmpBuffer));
 
     // Pass back pointer to message buffer.
     *messageBuffer = buffer;
diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 1571b2f..f1c95af 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -95,7 +95,7 @@ static void release_message(char **buffer, int length)
 {
     if (*buffer != NULL && length > 0)
     {
-        memset(*buffer, 0, length);
+        OPENSSL_cleanse(*buffer, length);
     }
     free(*buffer);
     *buffer = NULL;
diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index 70157be..66aef48 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -96,7 +96,9 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
     write_initialize_key_macro_body(out, type, name, data, len);
     fprintf(out, "%s[%d] = '\\0'; } while (0)\n", name, len);
 
-    fprintf(out, "#define CLEAR_%s() memset(%s, 0, %s_LEN)\n", name, name, name);
+    /* volatile, or the compiler leaves out the writes to a key that isn't used again. */
+    fprintf(out, "#define CLEAR_%s() do { int clear_i; for (clear_i = 0; clear_i < %s_LEN; ++clear_i) "
+                 "((volatile unsigned char *) %s)[clear_i] = 0; } while (0)\n", name, name, name);
 
     write_header_extra(out, type);
 
-- 
2.43.0


From 9152e98830acde20cbd2f1cf30a6a060f71b645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:00 +0000
Subject: [PATCH 48/49] fix: a message is answered when no memory is left for
 its copy

---
 src/lve/mlle_lve.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 9baf63e..4439442 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -207,14 +207,21 @@ int mlle_lve_receive(struct mlle_lve_ctx *lve_ctx)
         {
             // Create a temporary buffer for tokens.
             tokenBuffer = malloc(bytesRead + 1);
-            memcpy(tokenBuffer, messageBuffer, bytesRead);
-            tokenBuffer[bytesRead] = 0;
+            if (tokenBuffer != NULL)
+            {
+                memcpy(tokenBuffer, messageBuffer, bytesRead);
+                tokenBuffer[bytesRead] = 0;
 
-            // Extract command from message.
-            grammar_error = mlle_parse_command(tokenBuffer, &command, error_msg, ERROR_SIZE);
+                // Extract command from message.
+                grammar_error = mlle_parse_command(tokenBuffer, &command, error_msg, ERROR_SIZE);
 
-            free(tokenBuffer);
-            tokenBuffer = NULL;
+                free(tokenBuffer);
+                tokenBuffer = NULL;
+            }
+            else
+            {
+                grammar_error = LE_UNKNOWN_ERROR;
+            }
 
             if (grammar_error == LE_VALID_GRAMMAR)
             {
-- 
2.43.0


From f2c1de364560451e41af8cdf0e0b9057ff0b902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:00 +0000
Subject: [PATCH 49/49] fix: packagetool fails cleanly when memory for the list
 of executables runs out

---
 src/packagetool/utils.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index fb3482f..4230d2b 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -403,6 +403,11 @@ int countLVE()
     for (i = 0; i < NO_OF_LVE; ++i) {
         path_len = strlen(dir_path) + strlen(lve[i]) + 5 + 1;
         path = malloc(path_len);
+        if (path == NULL) {
+            printf("Could not allocate memory.\n");
+            free(dir_path);
+            return 0;
+        }
         snprintf(path, path_len, "%s/LVE/%s", dir_path, lve[i]);
         count += fileExists(path);
         free(path);
@@ -491,7 +496,11 @@ int createCopyArray()
             for (j = 0; j < NO_OF_LVE; ++j) {
                 if ((lveList[j] = malloc(MAX_STRING)) == NULL) {
                     printf("Failed to allocate space for copied files.\n");
+                    while (j-- > 0) {
+                        free(lveList[j]);
+                    }
                     free(lveList);
+                    lveList = NULL;
                     return 0;
                 }
             }
@@ -533,6 +542,11 @@ int copyLVE()
     for (i = 0; i < NO_OF_LVE; ++i) {
         path_len = strlen(dir_path) + strlen(lve[i]) + 5 + 1;
         path = malloc(path_len);
+        if (path == NULL) {
+            printf("Could not allocate memory.\n");
+            free(dir_path);
+            return 0;
+        }
         snprintf(path, path_len, "%s/LVE/%s", dir_path, lve[i]);
 
         // Check if this LVE exists.
-- 
2.43.0

