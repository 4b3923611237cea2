From 7cd95bff6dad4ffd38aa0e2beb082d30c15272cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:44 +0000
Subject: [PATCH 01/56] fix: a tool without certificate is untrusted, not a
 crash

The handshake succeeds without client certificate, and validate() then
compared a NULL key.
---
 src/lve/mlle_lve_pubkey.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lve/mlle_lve_pubkey.c b/src/lve/mlle_lve_pubkey.c
index 31300b7..7b4086a 100644
--- a/src/lve/mlle_lve_pubkey.c
+++ b/src/lve/mlle_lve_pubkey.c
@@ -73,8 +73,10 @@ int validate()
     INITIALIZE_PUBLIC_KEY_TOOL();
     // global_tool_pub_key is the public key received in
     // the LVE:s callback method during TLS handshake.
+    // It is NULL if the tool didn't send any certificate.
     for (i = 0; i < PUBLIC_KEY_TOOL_NUM; i++){
-        if (strcmp(global_tool_pub_key, PUBLIC_KEY_TOOL[i]) == 0)
+        if (global_tool_pub_key != NULL &&
+            strcmp(global_tool_pub_key, PUBLIC_KEY_TOOL[i]) == 0)
         {
             /* Found matching key. */
             break;            
-- 
2.43.0


From 869d71df6feb116023da07da83a11e5d8d590a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:44 +0000
Subject: [PATCH 02/56] fix: LVE rejects messages whose data doesn't match the
 declared length

More data than declared overran the heap buffer, less left it
uninitialised (and sent heap content back in error messages), a message
without newline was searched past its end, and a huge length gave a NULL
pointer.
---
 src/common/mlle_utils.c | 12 +++++++++++-
 src/lve/mlle_lve.c      | 17 +++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 9b39e26..3605247 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -38,6 +38,12 @@
  *      command - the structure where we will place the
  *                extracted data.
  *      buffer - the message containing command and data.
+ *      buffer_len - the number of bytes in buffer.
+ *
+ * Returns:
+ *      Number of data bytes copied to command->data. command->data is
+ *      NULL if the message has no data part, or has more data than
+ *      command->length says.
  *************************************************************/
 size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_len)
 {
@@ -52,13 +58,17 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
 
     // Get pointer to data part
     // Everything after the first new line character is the data part.
-    data_part = strstr(buffer, "\n");
+    data_part = memchr(buffer, '\n', buffer_len);
     if (data_part == NULL)
     {
         return 0;
     }
     data_part++;
     data_len = buffer_len - (data_part - buffer);
+    if (data_len > (*command)->length || (*command)->length == (size_t) -1)
+    {
+        return 0;
+    }
 
     // Allocate memory for total length of data to read.
     (*command)->data = malloc((*command)->length + 1);
diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 71b83c2..69e162d 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -82,8 +82,25 @@ mlle_lve_handle_command(struct mlle_lve_ctx *lve_ctx,
     // Is this a command with a data part.
     if (mlle_command_info[command->id].msg_form == MLLE_PROTOCOL_LENGTH_MSG_FORM)
     {
+        // The data part must be exactly as long as the command says.
+        char *data_part = memchr(buffer, '\n', buffer_len);
+
+        if (data_part == NULL ||
+            buffer_len - (data_part + 1 - buffer) != command->length)
+        {
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_COMMAND_NOT_UNDERSTOOD_ERROR,
+                    "Protocol error: The length of the data doesn't match the command.");
+            return current_state;
+        }
+
         // Extract data from message.
         extract_data(&command, buffer, buffer_len);
+        if (command->data == NULL)
+        {
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_OTHER_ERROR,
+                    "Couldn't allocate memory");
+            return current_state;
+        }
     }
 
     switch (current_state) {
-- 
2.43.0


From 91f9a650e295798b8350fccb00c605a76704b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:44 +0000
Subject: [PATCH 03/56] fix: tool checks the data part of a reply while reading
 it

A connection lost in the middle of a reply gave memcpy() a length of -1,
and data beyond the announced length was written past the buffer.
---
 src/common/mlle_utils.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 3605247..e73e880 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -162,6 +162,8 @@ int mlle_read_command(SSL *ssl,
         if (command->data == NULL)
         {
             mlle_error_set_literal(error, 1, 1, "End Of File.");
+            free(messageBuffer);
+            return 0;
         }
     }
 
@@ -171,12 +173,26 @@ int mlle_read_command(SSL *ssl,
     while (totalBytesRead < command->length)
     {
         // Read more data.
+        free(messageBuffer);
+        messageBuffer = NULL;
         bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
 
+        if (bytesRead < 0 || (size_t) bytesRead > command->length - totalBytesRead)
+        {
+            mlle_error_set_literal(error, 1, 1,
+                    bytesRead < 0 ? "Connection lost in the middle of a message."
+                                  : "More data than the length of the message.");
+            free(messageBuffer);
+            free(command->data);
+            command->data = NULL;
+            return 0;
+        }
+
         // Add data to command buffer.
         memcpy(command->data + totalBytesRead, messageBuffer, bytesRead);
         totalBytesRead += bytesRead;
     }
 
+    free(messageBuffer);
     return 1;
 }
-- 
2.43.0


From 457965946c629358aa5dbc3fba354595d5d1abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:44 +0000
Subject: [PATCH 04/56] fix: tool gets EOF when the LVE terminates

The parent kept the write end of the pipe it reads from, so every read
after the death of the LVE blocked for ever.
---
 src/tool/mlle_spawn_posix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index 3046735..cc1b0e8 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -99,6 +99,8 @@ mlle_spawn(const char *exec_name,
 
     default:
         close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        // Keep no copy of the LVE's end, or a dead LVE would never give EOF.
+        close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
         connections = calloc(1, sizeof(*connections));
         if (connections != NULL) {
             connections->fd_to_child = parent_to_child_pipe_fd[PIPE_WRITE_INDEX];
-- 
2.43.0


From 45a60ccd7ff9b01cdae9062321bed1fdb5dcb088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:13 +0000
Subject: [PATCH 05/56] fix: a terminated LVE doesn't kill the tool with
 SIGPIPE

---
 src/tool/mlle_spawn_posix.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index cc1b0e8..14861a8 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -21,6 +21,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <errno.h>
+#include <signal.h>
 #include <string.h>
 #include "mlle_types.h"
 #include "mlle_error.h"
@@ -45,6 +46,16 @@ mlle_spawn(const char *exec_name,
     int child_to_parent_pipe_fd[2] = { -1, -1 };
     int status = 0;
     struct mlle_connections *connections = NULL;
+    struct sigaction sigpipe_action;
+
+    // Writing to an LVE that has terminated shall be an error, not the end
+    // of this process. Don't interfere if SIGPIPE is handled already.
+    if (sigaction(SIGPIPE, NULL, &sigpipe_action) == 0
+        && !(sigpipe_action.sa_flags & SA_SIGINFO)
+        && sigpipe_action.sa_handler == SIG_DFL)
+    {
+        signal(SIGPIPE, SIG_IGN);
+    }
 
     status = access(exec_name, F_OK);
     if (status == -1) {
@@ -92,6 +103,7 @@ mlle_spawn(const char *exec_name,
         }
         close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
 
+        signal(SIGPIPE, SIG_DFL);
         execl(exec_name, exec_name, (char *) NULL);
         fprintf(stderr, "execl() failed for %s. Error: %s\n", exec_name, strerror(errno));
         _exit(4);
-- 
2.43.0


From 87b0447f64ab240e1157487cac75bd5ae55fe243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:13 +0000
Subject: [PATCH 06/56] fix: mlle_tool_version sets the error when sending
 fails

---
 src/tool/mlle_licensing.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index b2648b3..c173e13 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -214,6 +214,7 @@ int mlle_tool_version(const struct mlle_connections *connections,
 
     if (mlle_send_number_form(connections->ssl, MLLE_PROTOCOL_VERSION_CMD, 
         max_protocol_version) < 0) {
+        mlle_error_set_literal(error, 1, 1, "Failed to send command VERSION to the LVE.");
         return 0;
     }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_VERSION_CMD, &command, error)) {
-- 
2.43.0


From 70a6f756a75fa8ec429f1748fe2b0fd9672666ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:13 +0000
Subject: [PATCH 07/56] fix: LIB with an empty path is answered and names no
 library

No reply was sent, and the session went on without library path.
---
 src/lve/mlle_lve.c         | 5 +++++
 src/lve/mlle_lve_libpath.c | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 69e162d..0c109cd 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -158,6 +158,11 @@ mlle_lve_handle_command(struct mlle_lve_ctx *lve_ctx,
         break;
     }
 
+    if (next_state == MLLE_LVE_STATE_LICENSE && lve_ctx->libpath == NULL) {
+        // LIB without a path: a library is still to be named.
+        next_state = current_state;
+    }
+
     if (command->data != NULL) {
         free(command->data);
         command->data = NULL;
diff --git a/src/lve/mlle_lve_libpath.c b/src/lve/mlle_lve_libpath.c
index 07c2a89..091033c 100644
--- a/src/lve/mlle_lve_libpath.c
+++ b/src/lve/mlle_lve_libpath.c
@@ -62,8 +62,10 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
 
     // Is there something to check?
     if ((command->data == NULL) || (command->length == 0)) {
-        lve_ctx->tool_error_type = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
-        lve_ctx->tool_error_msg = "Path to library is missing.";
+        if(!is_in_checkout_feature_without_tool_mode) {
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR,
+                            "Path to library is missing.");
+        }
         return 0;
     }
 
-- 
2.43.0


From d7c8d66db61a743ae137994d3fb66458fcd73ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:40 +0000
Subject: [PATCH 08/56] fix: file requests with ".." are refused

The documentation says that ".." may not be used, but the LVE opened such
paths, outside of the library too.
---
 src/lve/mlle_lve_file.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/lve/mlle_lve_file.c b/src/lve/mlle_lve_file.c
index 76067ee..b32834a 100644
--- a/src/lve/mlle_lve_file.c
+++ b/src/lve/mlle_lve_file.c
@@ -24,6 +24,24 @@
 #include "mlle_lve_file.h"
 #include "mlle_cr_decrypt.h"
 
+/* Returns 1 if some component of the path is "..", 0 otherwise. */
+static int
+has_parent_reference(const char *path)
+{
+    while (*path != '\0') {
+        size_t length = strcspn(path, "/\\");
+
+        if (length == 2 && path[0] == '.' && path[1] == '.') {
+            return 1;
+        }
+        path += length;
+        if (*path != '\0') {
+            path++;
+        }
+    }
+    return 0;
+}
+
 int
 mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
               const struct mlle_command *command)
@@ -46,6 +64,13 @@ mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
         goto CLEANUP;
     }
 
+    /* The file must be in the library. */
+    if (has_parent_reference(command->data)) {
+        error_code = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
+        error_msg = "\"..\" may not be used in the path of a file.";
+        goto CLEANUP;
+    }
+
     /* Concatenate path. */
     path_size = lve_ctx->path_size + command->length + 2; /* 1 extra for a '/', 1 for null char */
     file_path = malloc(path_size);
-- 
2.43.0


From 7f099656416abdb8b9a566545840cc38c76745ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:09 +0000
Subject: [PATCH 09/56] fix: files in directories without package.moc are
 decrypted completely

The result of the look-up in the parent directory was taken to mean that
the file itself is a package.moc: its last 32 bytes were cut off and stored
as key mask of a wrong directory.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 2e24f34..628a37f 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -150,7 +150,7 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     file_buffer = mlle_io_read_file(fullpath, &file_size, &error);
     if (error) {
         /* assume that no file exists; read mask from parent */
-        ret = mlle_demask_key(context, path, key);
+        ret = (mlle_demask_key(context, path, key) < 0) ? -1 : 0;
     }
     else {
         out_buffer = malloc(file_size);
-- 
2.43.0


From e1ebf6d67df2c393cb142f418dc505c152dd2028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:09 +0000
Subject: [PATCH 10/56] fix: the key mask of an empty package.mo is used

---
 src/decryptors/default/src/mlle_cr_decrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 628a37f..51ac142 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -156,7 +156,7 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
         out_buffer = malloc(file_size);
         if (file_buffer && out_buffer) {
             int ret_code = mlle_cr_decrypt(context, path, file_buffer, file_size, out_buffer);
-            if (ret_code > 0) {
+            if (ret_code >= 0) {
                 /* key mask is now in the hash but it's also the tail in the outbuffer */
                 for (i = 0; i < MLLE_CR_KEY_LEN; ++i) {
                     key[i] = key[i] ^ out_buffer[ret_code + i];
-- 
2.43.0


From d1ed8974371fc4e09b4a743910b856f16c4c8094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:09 +0000
Subject: [PATCH 11/56] fix: a failure to get the key mask is an error

The failure was taken for "this is a package.moc" when decrypting, and
encrypt_file went on and encrypted with a key the LVE never finds.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 51ac142..0f13502 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -292,7 +292,12 @@ int mlle_cr_decrypt(
         restore_mask_flag = mlle_demask_key(context, rel_file_path, MLLE_CR_KEY);
     }
 #endif
-    if (!in) return 0;
+    if (!in) {
+        res = (restore_mask_flag < 0) ? -1 : 0;
+        goto error;
+    }
+    if (restore_mask_flag < 0)
+        goto error;
 
     if (!EVP_DecryptInit_ex(c_ctx, cipher, NULL, MLLE_CR_KEY, iv_in))
         goto error;
-- 
2.43.0


From 1d68bfbab4b4cc9256db67db15490bbf4c62c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:09 +0000
Subject: [PATCH 12/56] fix: a package.moc too short to hold a key mask is an
 error

The mask was read from before the buffer.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 0f13502..0ad0c1f 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -328,6 +328,8 @@ int mlle_cr_decrypt(
 #ifndef DISABLE_DEMASK_KEY
     /* check if this is a package.moc file and save the key into cache */
     if (restore_mask_flag) {
+        if (out_len < MLLE_CR_KEY_LEN)
+            goto error;
         out_len -= MLLE_CR_KEY_LEN; /* take out key length from the data sent back*/
         if (mlle_store_keymask(context, rel_file_path, out + out_len) < 0)
             goto error;
-- 
2.43.0


From 2b06af9997e2a4e71ea778035218ae4b398bccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:09 +0000
Subject: [PATCH 13/56] fix: encrypt_file without base directory writes the
 file it was told to

The trailing 'c' was removed from the output name before use, so that
"encrypt_file x.mo x.moc" overwrote x.mo.
---
 src/encrypt_decrypt/encrypt_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index a55e112..0e84579 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -85,12 +85,12 @@ int main(int argc, char** argv)
     }    
     else {
         char* fname = encrypted + strlen(encrypted);
+        snprintf(pathdest, 4096, "%s", encrypted);
         fname--;
         if (*fname == 'c') {
             *fname = '\0';
         }
         c = mlle_cr_create("");
-        snprintf(pathdest, 4096, "%s", encrypted);
         while (fname != encrypted) {
             char ch = *(fname - 1);
             if (ch == '/' || ch == '\\') break;
-- 
2.43.0


From 3a9f01d8c4bfac6e76dbe26e3ac36808c869ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:28 +0000
Subject: [PATCH 14/56] fix: an encrypted file without room for IV and HMAC is
 an error

The length of the encrypted part became negative, which crashed the LVE.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 0ad0c1f..1e4ad5b 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -280,6 +280,8 @@ int mlle_cr_decrypt(
     /* Split incoming data. */
     iv_in   = (unsigned char*) in;
     if (in) {
+        if (in_len < (size_t) iv_len + mac_len)
+            goto error;
         enc_in = iv_in + iv_len;
         mac_in = iv_in + in_len - mac_len;
         enc_len = (int)(in_len - iv_len - mac_len);
-- 
2.43.0


From 54e1b4bdd7bc730be029ce2fa7f1d452e95b5dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 15/56] fix: decrypt_file handles files of any size

---
 src/encrypt_decrypt/decrypt_file.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index 0d09cf4..985d746 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -20,6 +20,7 @@
 #define _XOPEN_SOURCE 700
 #include <stddef.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <errno.h>
 
@@ -27,6 +28,8 @@
 #include <openssl/evp.h>
 #include <openssl/err.h>
 #include "mlle_cr_decrypt.h"
+#include "mlle_error.h"
+#include "mlle_io.h"
 
 #ifdef INCLUDE_OPENSSL_APPLINK
 #ifndef __INCLUDE_OPENSSL_APPLINK
@@ -35,9 +38,6 @@
 #endif /* __INCLUDE_OPENSSL_APPLINK */
 #endif /* INCLUDE_OPENSSL_APPLINK */
 
-#define BUF_SIZE 10*1024*1024
-char in_buf[BUF_SIZE];
-char out_buf[BUF_SIZE];
 extern FILE* mlle_log;
 int main(int argc, char** argv)
 {
@@ -76,9 +76,14 @@ int main(int argc, char** argv)
 
     /* Decrypt file. */
     if (in && out) {
-        bytes = (int) fread(in_buf, 1, BUF_SIZE, in);
-
-        bytes = mlle_cr_decrypt(c, argv[2], in_buf, bytes, out_buf);
+        size_t in_size = 0;
+        struct mlle_error *error = NULL;
+        char *in_buf = mlle_io_read_file(path, &in_size, &error);
+        char *out_buf = malloc(in_size + 1);
+
+        bytes = -1;
+        if (in_buf != NULL && out_buf != NULL)
+            bytes = mlle_cr_decrypt(c, argv[2], in_buf, in_size, out_buf);
         if (bytes >= 0) {
             if (fwrite(out_buf , 1, bytes, out) == bytes)
                 res = 0;
@@ -86,6 +91,9 @@ int main(int argc, char** argv)
         if (res > 0) {
             fprintf(stderr, "Decryption failed for file %s.\n", argv[2]);
         }
+        mlle_error_free(&error);
+        free(in_buf);
+        free(out_buf);
     }
 
     /* Close files. */
-- 
2.43.0


From 8202e8583799df7dd9f7418fa4fa10d6167f0cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:05 +0000
Subject: [PATCH 16/56] fix: generated encryption keys are embedded unchanged

---
 src/embedfile/obfuscate_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index 32046bd..b6383d2 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -70,9 +70,10 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
     size_t i = 0, j = 0;
     FILE *out = NULL;
 
-    /* Remove \r from the string to support windows generated pem files */
+    /* Remove \r from the string to support windows generated pem files.
+       The encryption key is not text, it must be kept as it is. */
     for (; i < len; ++i) {
-        if (data[i] == '\r')
+        if (type != ENCRYPT && data[i] == '\r')
             continue;
         if (i != j)
             data[j] = data[i];
-- 
2.43.0


From c5ba00986e2f433c3d4d05a15e0b7a24db84a0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:41 +0000
Subject: [PATCH 17/56] fix: report an empty TLS error queue without reading an
 unset buffer

ssl_get_error_string left its output untouched when the error queue was
empty, e.g. when the peer closed the pipe during the handshake, and the
callers then printed an uninitialised buffer.
---
 src/common/mlle_ssl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index a7de6d3..beb6c16 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -443,6 +443,9 @@ void ssl_get_error_string(int error_code, char *error, size_t error_len)
             break;
     }
 
+    // There is nothing in the error queue when e.g. a pipe was closed.
+    snprintf(error, error_len, "%s", err_str);
+
     while ((error_value = ERR_get_error()) > 0)
     {
         snprintf(error, error_len, "%s. reason: %s", err_str, (char*) ERR_reason_error_string(error_value));
-- 
2.43.0


From ed86bce92e32510def6cdd240b335e00172f96f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:43 +0000
Subject: [PATCH 18/56] fix: an unexpected answer to a license request overran
 the message size limit

mlle_expect_commands passed the whole buffer size for the remaining part
of the buffer, which aborts the calling process in builds with buffer
checks (_FORTIFY_SOURCE).
---
 src/tool/mlle_licensing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index c173e13..d5c8315 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -177,7 +177,7 @@ mlle_expect_commands(SSL *ssl,
                     mlle_command_info[command->id].name,
                     mlle_command_info[expected_command_ids[0]].name);
             for (i = 1; i < ncommands; i++) {
-                written_bytes += snprintf(&err_msg[written_bytes], alloc_size,", %s",
+                written_bytes += snprintf(&err_msg[written_bytes], alloc_size - written_bytes, ", %s",
                         mlle_command_info[expected_command_ids[i]].name);
             }
         }
-- 
2.43.0


From 14bafc5d996d165b9a1e3e5250b7b46c62450b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:23 +0000
Subject: [PATCH 19/56] fix: an answer without the end of its line is not taken
 for a complete one

The last byte of a message was dropped when looking for the command, so
"VERSION 12" without a newline was accepted as version 1.
---
 src/common/mlle_utils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index e73e880..7079ef1 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -122,6 +122,14 @@ int mlle_read_command(SSL *ssl,
         return 0;
     }
 
+    // The line with the command has to be complete.
+    if (bytesRead == 0 || memchr(messageBuffer, '\n', bytesRead) == NULL)
+    {
+        mlle_error_set_literal(error, 1, 1, "Incomplete message.");
+        free(messageBuffer);
+        return 0;
+    }
+
     // Create a temporary array.
     token_buffer = calloc(bytesRead + 1, 1);
     if (token_buffer == NULL) 
-- 
2.43.0


From 5abecfd7c6b568183f7638b48523899cee72c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:59 +0000
Subject: [PATCH 20/56] fix: the executable returns licenses when the tool
 terminated abruptly

Writing to the closed pipe of a terminated tool killed the executable
with SIGPIPE before the license manager was shut down.
---
 src/lve/mlle_lve.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 0c109cd..96297dc 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -44,6 +44,8 @@
 #ifdef WIN32
 #include <io.h>
 #include <fcntl.h>
+#else
+#include <signal.h>
 #endif
 
 
@@ -292,6 +294,9 @@ void mlle_lve_init(struct mlle_lve_ctx *lve_ctx)
 #ifdef _WIN32
     _setmode(_fileno(lve_ctx->in_stream), _O_BINARY);
     _setmode(_fileno(lve_ctx->out_stream), _O_BINARY);
+#else
+    // A tool that has terminated shall not keep us from returning licenses.
+    signal(SIGPIPE, SIG_IGN);
 #endif
 }
 
-- 
2.43.0


From aef84c3af9db28be22609be84888ff845a68dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:00 +0000
Subject: [PATCH 21/56] fix: an option without value is refused, not a crash

---
 src/lve/lve.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lve/lve.c b/src/lve/lve.c
index 6d5e7a1..7d6f6bd 100644
--- a/src/lve/lve.c
+++ b/src/lve/lve.c
@@ -233,6 +233,10 @@ int main(int argc, char **argv)
                 goto error;
             }
             i++;
+            if (i == argc) {
+                fprintf(stderr, "Error: Option --checkout-feature requires a value");
+                goto error;
+            }
             checkout_feature_sz =
                 (strlen(argv[i]) + 1) * sizeof(*checkout_feature);
             checkout_feature = malloc(checkout_feature_sz);
@@ -250,6 +254,10 @@ int main(int argc, char **argv)
                 goto error;
             }
             i++;
+            if (i == argc) {
+                fprintf(stderr, "Error: Option --libpath requires a value");
+                goto error;
+            }
             libpath_sz = (strlen(argv[i]) + 1) * sizeof(*libpath);
             libpath = malloc(libpath_sz);
             if (libpath == NULL) {
-- 
2.43.0


From 117668a3fa2d4c304130f3846210a251a9ba9976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:00 +0000
Subject: [PATCH 22/56] fix: failure to set up licensing without a tool is an
 error, not a crash

---
 src/lve/mlle_lve_feature.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lve/mlle_lve_feature.c b/src/lve/mlle_lve_feature.c
index 68a7c9d..847ab88 100644
--- a/src/lve/mlle_lve_feature.c
+++ b/src/lve/mlle_lve_feature.c
@@ -59,7 +59,13 @@ mlle_lve_feature(struct mlle_lve_ctx *lve_ctx,
     struct mlle_error *error = NULL;
     int success = 0;
 
-    if (!mlle_lve_setup_licensing_check_error(lve_ctx)) {
+    if (is_in_checkout_feature_without_tool_mode) {
+        // There is no tool to send the error to.
+        if (!mlle_lve_setup_licensing(lve_ctx, &error)) {
+            mlle_error_free(&error);
+            return 0;
+        }
+    } else if (!mlle_lve_setup_licensing_check_error(lve_ctx)) {
         return 0;
     }
 
-- 
2.43.0


From 0e2b255d49a6c12b4d7ad1afb858683d20d6ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:13 +0000
Subject: [PATCH 23/56] fix: encrypt_file and decrypt_file report a write
 failure at close

---
 src/encrypt_decrypt/decrypt_file.c | 6 ++++--
 src/encrypt_decrypt/encrypt_file.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index 985d746..8a07a78 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -99,8 +99,10 @@ int main(int argc, char** argv)
     /* Close files. */
     if (in != NULL)
         fclose(in);
-    if (out != NULL)
-        fclose(out);
+    if (out != NULL && fclose(out) != 0 && res == 0) {
+        fprintf(stderr, "Could not write file %s. Error message was: %s\n", argv[3], strerror(errno));
+        res = 1;
+    }
     if (out != NULL && res != 0)
         remove(argv[3]);
 
diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index 0e84579..e95d4fe 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -116,8 +116,10 @@ int main(int argc, char** argv)
     /* Close files. */
     if (in != NULL)
         fclose(in);
-    if (out != NULL)
-        fclose(out);
+    if (out != NULL && fclose(out) != 0 && res == 0) {
+        fprintf(stderr, "Could not write file %s. Error message was: %s\n", pathdest, strerror(errno));
+        res = 1;
+    }
     if (out != NULL && res != 0)
         remove(pathdest);
 
-- 
2.43.0


From d49f491fbf9b2c6eed1e9e3b691bdd579a345491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:13 +0000
Subject: [PATCH 24/56] fix: decrypt_file refuses surplus arguments

---
 src/encrypt_decrypt/decrypt_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index 8a07a78..86957aa 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -50,7 +50,7 @@ int main(int argc, char** argv)
 
     mlle_log = stderr;
 
-    if (argc < 4) {
+    if (argc != 4) {
         fprintf(stderr, "Usage: %s <encrypted basedir> <encrypted file> <cleartext file>\n", argv[0]);
         return 1;
     }
-- 
2.43.0


From 388320362d66cba0183e241152dadaa2d93fe33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:13 +0000
Subject: [PATCH 25/56] fix: encrypt_file refuses empty and over-long names and
 does not copy overlapping strings

---
 src/encrypt_decrypt/encrypt_file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index e95d4fe..540ba93 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -58,6 +58,11 @@ int main(int argc, char** argv)
         return 1;
     }
 
+    if (argv[2][0] == '\0' || strlen(argv[2]) >= sizeof(encrypted)) {
+        fprintf(stderr, "The name of the encrypted file is empty or too long.\n");
+        return 1;
+    }
+
     /* OpenSSL initialization stuff. */
     ERR_load_crypto_strings();
     OpenSSL_add_all_algorithms();
@@ -96,7 +101,7 @@ int main(int argc, char** argv)
             if (ch == '/' || ch == '\\') break;
             fname--;
         }
-        strcpy(encrypted, fname);
+        memmove(encrypted, fname, strlen(fname) + 1);
     }
     
     out = fopen(pathdest, "wb");
-- 
2.43.0


From 3de9d17b0ffadd7f75896ab61bd2aed69e9f942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:06 +0000
Subject: [PATCH 26/56] fix: packagetool accepts only arguments that begin with
 a dash

---
 src/packagetool/arguments.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/packagetool/arguments.c b/src/packagetool/arguments.c
index 1bca204..e284b38 100644
--- a/src/packagetool/arguments.c
+++ b/src/packagetool/arguments.c
@@ -212,11 +212,11 @@ int validateArguments(int noOfArguments, char **arguments)
     // Iterate over all arguments.
     for (i = 1; i < noOfArguments; i++)
     {
-        ptr = arguments[i];
-        ++ptr;
+        // The name of an argument follows a dash.
+        ptr = (arguments[i][0] == '-') ? arguments[i] + 1 : "";
 
         // Is the argument valid.
-        if (ptr && *ptr && lookupArgument(ptr))
+        if (*ptr && lookupArgument(ptr))
         {
             // Safety check. If user trying to add an argument twice.
             if (containsKey(ptr))
-- 
2.43.0


From 6ef54d93c641888f3b8833d45add90b917e44717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:31 +0000
Subject: [PATCH 27/56] fix: packagetool reports files and directories that
 could not be copied

---
 src/packagetool/utils.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index e26cbdc..6579893 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -2008,10 +2008,15 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     if (mkdir(searchPathTo, 0777) == -1) {
                         printf("Error: Failed to create folder %s.\n",
                                searchPathTo);
+                        result = 0;
+                        break;
                     }
 
                     // Use recursive to check the folder we found.
-                    copyDirectoryLinux(searchPath, searchPathTo);
+                    result = copyDirectoryLinux(searchPath, searchPathTo);
+                    if (1 != result) {
+                        break;
+                    }
                 }
                 // Or a file?
                 else if (dir->d_type == DT_REG) {
@@ -2019,8 +2024,10 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
 
                     // file in new location.
                     snprintf(folderName, MAX_PATH_LENGTH, "%s/%s", toPath, dir->d_name);
-                    copyFile(searchPath, folderName);
-
+                    result = copyFile(searchPath, folderName);
+                    if (1 != result) {
+                        break;
+                    }
                 }
             }
         }
@@ -2040,8 +2047,8 @@ int copyFile(char *fromPath, char *toPath)
     int status = 0;
     struct stat info;
     char *data = NULL;
-    int bytes = 0;
-    long buffSize = 0;
+    size_t bytes = 0;
+    size_t buffSize = 0;
     FILE *fdRead = NULL;
     FILE *fdWrite = NULL;
 
@@ -2076,6 +2083,7 @@ int copyFile(char *fromPath, char *toPath)
         printf("Error: When copying file: Failed to read from file "
                "\"%s\".\n",
                fromPath);
+        goto error;
     }
 
     fdWrite = fopen(toPath, "wb");
@@ -2085,11 +2093,14 @@ int copyFile(char *fromPath, char *toPath)
             toPath, strerror(errno));
         goto error;
     }
-    fwrite(data, sizeof(char), buffSize, fdWrite);
-    if (bytes != buffSize) {
+    bytes = fwrite(data, sizeof(char), buffSize, fdWrite);
+    status = fclose(fdWrite);
+    fdWrite = NULL;
+    if (bytes != buffSize || status != 0) {
         printf("Error: When copying file: Failed to write to file "
                "\"%s\".\n",
                toPath);
+        goto error;
     }
 
 #ifndef WIN32
-- 
2.43.0


From 4180d4a1744a20a37210d5d7e793be285b512722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:31 +0000
Subject: [PATCH 28/56] fix: packagetool reports encrypted files that could not
 be written

---
 src/packagetool/utils.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 6579893..48d6900 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1273,7 +1273,7 @@ int isEncryptedFile(char *filename)
 int encryptFile(mlle_cr_context *context, const char *basedir,
                 const char *rel_file_path)
 {
-    FILE *in, *out;
+    FILE *in = NULL, *out = NULL;
     int result = 1;
     char file[LONG_FILE_NAME_MAX];
     char newFile[LONG_FILE_NAME_MAX];
@@ -1300,8 +1300,13 @@ int encryptFile(mlle_cr_context *context, const char *basedir,
         result = 0;
     }
 
-    fclose(in);
-    fclose(out);
+    if (in) {
+        fclose(in);
+    }
+    if (out && fclose(out) != 0) {
+        printf("Error: Couldn't write file %s.\n", newFile);
+        result = 0;
+    }
 
     return result;
 }
-- 
2.43.0


From 2473887a745ad2a613ff3e5c251b0d1c6b20fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:31 +0000
Subject: [PATCH 29/56] fix: packagetool reports a manifest that could not be
 written

---
 src/packagetool/manifest.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index 5b652b9..745bf60 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -183,12 +183,18 @@ int createManifestFile()
 {
     char *path = NULL;
     char pathAndFile[MAX_PATH_LENGTH + 1];
+    int failed = 0;
 
     // Add filename to path to .library.
     path = getDotLibraryPath();
     snprintf(pathAndFile, MAX_PATH_LENGTH + 1, "%s/manifest.xml", path);
 
     fd = fopen(pathAndFile, "w");
+    if (fd == NULL)
+    {
+        printf("Error: Couldn't open file %s for writing.\n", pathAndFile);
+        return 0;
+    }
 
     // Add data to file.
     xml_init();
@@ -200,7 +206,12 @@ int createManifestFile()
     addDependencies();
     addFooter();
 
-    fclose(fd);
+    failed = ferror(fd);
+    if (fclose(fd) != 0 || failed)
+    {
+        printf("Error: Couldn't write file %s.\n", pathAndFile);
+        return 0;
+    }
     return 1;
 }
 
-- 
2.43.0


From c80b6eebbc18b7d378c8b81641212a183d686134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:31 +0000
Subject: [PATCH 30/56] fix: packagetool leaves no incomplete container

---
 src/packagetool/utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 48d6900..ee22c82 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1375,6 +1375,12 @@ int createZipArchive()
 #endif
 error:
     closeZipArchive(zip);
+#ifndef WIN32
+    // Don't leave an incomplete archive behind.
+    if (zip != NULL && result != 1) {
+        remove(archiveName);
+    }
+#endif
     return result;
 }
 
-- 
2.43.0


From 82e40503c6768eed2dd1b57c801b9ef4c6ba5d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:31 +0000
Subject: [PATCH 31/56] fix: containers of libraries with long names have their
 full name

---
 src/packagetool/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index ee22c82..648a3be 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1337,7 +1337,7 @@ int createZipArchive()
     int result = 0;
     int status = 0;
     char *cwd = NULL;
-    char archiveName[MAX_STRING] = {'\0'};
+    char archiveName[MAX_PATH_LENGTH] = {'\0'};
     char pathToZipfile[MAX_PATH_LENGTH] = {'\0'};
     char currentDir[MAX_PATH_LENGTH] = {'\0'};
     int encrypted = 0;
@@ -1345,7 +1345,7 @@ int createZipArchive()
 
     // Get last folder name in library path. This will
     // be the name of the archive.
-    snprintf(archiveName, MAX_STRING, "%s.mol", getLibraryName());
+    snprintf(archiveName, MAX_PATH_LENGTH, "%s.mol", getLibraryName());
 
     // Is library encrypted. If so, don't put the .mo-files in the archive.
     if (usingEncryption()) {
-- 
2.43.0


From aa6dc104b020b57833c47448dd96143d5fdbdac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:49 +0000
Subject: [PATCH 32/56] fix: tool and dependency files go into the manifest
 whatever the length of their lines

---
 src/packagetool/manifest.c | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index 745bf60..d88d788 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -453,38 +453,32 @@ char *extractPlatform(char *fileName)
 void copyFileInformation(char *path)
 {
     FILE *xmlfile;
-    char ch;
-    int index = 0;
+    int ch;
+    int last = '\n';
     int firstLine = 1;
-    char lineBuffer[200] = {'\0'};
 
     if ( (xmlfile = fopen(path, "r")))
     {
-        ch = getc(xmlfile);
-
-        while (ch != EOF)
+        while ((ch = getc(xmlfile)) != EOF)
         {
-            if (ch != '\n')
+            // Skip first line in the file.
+            if (!firstLine)
             {
-                lineBuffer[index] = ch;
-                ++index;
+                add_xml_indent();
+                putc(ch, fd);
+                last = ch;
             }
-            else
+            else if (ch == '\n')
             {
-                // Skip first line in the file.
-                if (!firstLine)
-                {
-                    add_xml_indent();
-                    fprintf(fd, "%s\n", lineBuffer);
-                }
-
-                memset(&lineBuffer[0], 0, sizeof(lineBuffer));
-                index = 0;
                 firstLine = 0;
             }
-            ch = getc(xmlfile);
         }
+
+        if (last != '\n')
+        {
+            putc('\n', fd);
+        }
+        fclose(xmlfile);
     }
-    fclose(xmlfile);
     xml_on_new_line = 1;
 }
-- 
2.43.0


From c4113c6899c763754145143f13934f81e2fce682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:17 +0000
Subject: [PATCH 33/56] fix: the manifest names the icon by its path in the
 library

---
 src/packagetool/utils.c | 59 +++++++++++++----------------------------
 1 file changed, 19 insertions(+), 40 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 648a3be..341d3bd 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1597,9 +1597,8 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
  *********************************************************/
 int cleanUpIconPath()
 {
-    char *tmpDir = NULL;
     char *tmpBuf = NULL;
-    char *ptr1, *ptr2 = NULL;
+    char *ptr = NULL;
     size_t path_len = 0;
     int i = 0;
 
@@ -1611,53 +1610,33 @@ int cleanUpIconPath()
 
     tmpBuf = pathToIcon;
 
-// Get the tmp path.
-#ifdef WIN32
-    tmpDir = getenv("TEMP");
-#else
-    tmpDir = getenv("TMPDIR");
-    if (tmpDir == NULL) {
-        tmpDir = "/tmp";
+    // The icon was found below the copied source folder.
+    path_len = strlen(getCopiedSourcePath());
+    if (strncmp(tmpBuf, getCopiedSourcePath(), path_len) != 0 ||
+        tmpBuf[path_len] == '\0') {
+        return 0;
     }
-#endif
-
-    // Point to icon path.
-    ptr1 = tmpBuf;
 
-    // Step forward to after temp folders.
-    ptr1 += strlen(tmpDir) + 1;
+    // Step forward to after library name.
+    ptr = tmpBuf + path_len + 1;
 
-    if (ptr1 && *ptr1) {
-        // Point to next slash.
 #ifdef WIN32
-        ptr2 = strchr(ptr1, '\\');
-
-        // replace '\\' with '/' according to spec
-        while (ptr2[i]) {
-            if (ptr2[i] == '\\') {
-                ptr2[i] = '/';
-            }
-            i++;
-        }
-#else
-        ptr2 = strchr(ptr1, '/');
-#endif
-
-        // Step forward to after library name.
-        ++ptr2;
-
-        if (ptr2 && *ptr2) {
-            // Create icon path without tmp or library name.
-            path_len = strlen(ptr2) + 1;
-            pathToIcon = malloc(path_len);
-            snprintf(pathToIcon, path_len, "%s", ptr2);
-            return 1;
+    // replace '\\' with '/' according to spec
+    while (ptr[i]) {
+        if (ptr[i] == '\\') {
+            ptr[i] = '/';
         }
+        i++;
     }
+#endif
 
+    // Create icon path without tmp or library name.
+    path_len = strlen(ptr) + 1;
+    pathToIcon = malloc(path_len);
+    snprintf(pathToIcon, path_len, "%s", ptr);
     free(tmpBuf);
 
-    return 0;
+    return 1;
 }
 
 /*****************************************************
-- 
2.43.0


From d99fb3690a7ce0378b3ee207f9c652747b3264d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:17 +0000
Subject: [PATCH 34/56] fix: line breaks and tabs in packagetool values survive
 reading the manifest

---
 src/packagetool/manifest.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index d88d788..05ffd48 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -66,6 +66,18 @@ static void print_escaped_text(const char* text)
         case '&':
             fprintf(fd, "&amp;");
             break;
+        case '\r':
+            fprintf(fd, "&#13;");
+            break;
+        case '\n':
+        case '\t':
+            /* a reader takes these for spaces in an attribute */
+            if (xml_in_attributes) {
+                fprintf(fd, "&#%d;", text[i]);
+            } else {
+                fprintf(fd, "%c", text[i]);
+            }
+            break;
         default:
             fprintf(fd, "%c", text[i]);
             break;
-- 
2.43.0


From d36a8ab55931653c70c3f6b30ca5be26630633eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:54 +0000
Subject: [PATCH 35/56] fix: an icon in a subdirectory of the library is found

---
 src/packagetool/utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 341d3bd..839019b 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1128,7 +1128,10 @@ int findFileLinux(const char *filename, const char *path)
                 // Have we found a folder?
                 if (dir->d_type == DT_DIR) {
                     // Use recursive to check the folder we found.
-                    findFileLinux(filename, searchPath);
+                    if (findFileLinux(filename, searchPath)) {
+                        result = 1;
+                        break;
+                    }
                 }
                 // Or a file?
                 else if (dir->d_type == DT_REG) {
-- 
2.43.0


From c847d80f44b241f3269feb919499962fe1f6c7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:32 +0000
Subject: [PATCH 36/56] fix: model files in directories named like package.mo
 are not dropped from the container

---
 src/packagetool/utils.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 839019b..91e4a83 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1018,7 +1018,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     char searchPath[MAX_PATH_LENGTH + 1];
     size_t path_len = 0;
     mlle_cr_context *context = context_in;
-    FILE *in;
+    struct stat info;
 
     // Find all.
     if (NULL == context) {
@@ -1033,9 +1033,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     }
     // Find all.
     snprintf(searchPath, MAX_PATH_LENGTH + 1, "%s/package.mo", fullPath);
-    in = fopen(searchPath, "rb");
-    if (in) {
-        fclose(in);
+    if (stat(searchPath, &info) == 0 && S_ISREG(info.st_mode)) {
         if (relPath) {
             snprintf(searchPath, MAX_PATH_LENGTH + 1,
                      "%s/package.mo"
@@ -1051,8 +1049,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
         while ((dir = readdir(d)) != NULL && (result == 1)) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
-                strcmp(dir->d_name, "..") != 0 &&
-                strcasecmp(dir->d_name, "package.mo") != 0) {
+                strcmp(dir->d_name, "..") != 0) {
                 if (relPath) {
                     snprintf(searchPath, MAX_PATH_LENGTH + 1, "%s/%s", relPath,
                              dir->d_name);
@@ -1072,8 +1069,9 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
                 }
                 // Or a file?
                 else if (dir->d_type == DT_REG) {
-                    // Encrypt Modelica files.
-                    if (isModelicaFile(dir->d_name)) {
+                    // Encrypt Modelica files, except package.mo which is done.
+                    if (strcasecmp(dir->d_name, "package.mo") != 0 &&
+                        isModelicaFile(dir->d_name)) {
                         result = encryptFile(context, topLevelPath, searchPath);
                     }
                 }
-- 
2.43.0


From b9d31ca4fa3da42ebb5015851cc3ff17571c9e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:35 +0000
Subject: [PATCH 37/56] fix: obfuscate crashed instead of reporting a key file
 it cannot find

---
 src/embedfile/obfuscate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/embedfile/obfuscate.c b/src/embedfile/obfuscate.c
index ca397fe..82fd421 100644
--- a/src/embedfile/obfuscate.c
+++ b/src/embedfile/obfuscate.c
@@ -131,7 +131,7 @@ void read_file(char* file, char** buf, size_t* len) {
     // Get size of file.
     staterr = stat(file, &fileInfo);
     if (staterr != 0) {
-        fprintf(stderr, "Could not get info on %s\n", *file);
+        fprintf(stderr, "Could not get info on %s\n", file);
         fprintf(stderr, "ERROR [%d] %s", staterr, strerror(staterr));
         exit(1);
     }
-- 
2.43.0


From 47fe08a9f66ab673842cdb05b1f96c9200b7eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:35 +0000
Subject: [PATCH 38/56] fix: a key header that could not be written completely
 was reported as made

---
 src/embedfile/obfuscate_utils.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index b6383d2..e81a00b 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -96,5 +96,11 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
 
     write_header_extra(out, type);
 
-    fclose(out);
+    /* A header that is only partly written must not be taken for a finished one. */
+    i = ferror(out);
+    if (fclose(out) != 0 || i != 0) {
+        fprintf(stderr, "Could not write file '%s'.", filename);
+        remove(filename);
+        exit(1);
+    }
 }
-- 
2.43.0


From 48b11ea69e8338bec0066d688b1b55e8c6cafa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:45 +0000
Subject: [PATCH 39/56] fix: encryption went on when no random numbers could be
 had

---
 src/decryptors/default/src/mlle_cr_encrypt.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decryptors/default/src/mlle_cr_encrypt.c b/src/decryptors/default/src/mlle_cr_encrypt.c
index a91c6c3..e6193e1 100644
--- a/src/decryptors/default/src/mlle_cr_encrypt.c
+++ b/src/decryptors/default/src/mlle_cr_encrypt.c
@@ -131,7 +131,10 @@ int mlle_mask_key(mlle_cr_context* context, const char* rel_file_path, unsigned
         }
 
         /* Create and store key mask for this directory */
-        RAND_bytes(store_mask, MLLE_CR_KEY_LEN);
+        if (RAND_bytes(store_mask, MLLE_CR_KEY_LEN) != 1) {
+            fprintf(stderr, "Could not generate a key mask when processing %s\n", rel_file_path);
+            return -1;
+        }
         map_item = (struct mlle_key_mask_map*)calloc(1, sizeof(struct mlle_key_mask_map) + rel_path_len + 1);
         if (map_item == NULL) {
             return -1;
@@ -235,7 +238,8 @@ int mlle_cr_encrypt(mlle_cr_context* context,
 
     /* Create IV and write it to file. */
     iv = (unsigned char*) malloc(iv_len);
-    RAND_bytes(iv, iv_len);
+    if (iv == NULL || RAND_bytes(iv, iv_len) != 1)
+        goto error;
     if (fwrite(iv, iv_len, 1, out) < 1)
         goto error;
 
-- 
2.43.0


From 536f73640262ce02edae9ce79db96193e1fe0964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:32 +0000
Subject: [PATCH 40/56] fix: packagetool crashed when no temporary directory
 could be created

---
 src/packagetool/utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 91e4a83..bf909f7 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -167,7 +167,10 @@ static char *getTempDirLinux()
     char TEMP_DIR_TEMPLATE[] = "/tmp/TemporaryFolderXXXXXX";
 
     if (tempStagingFolder == NULL) {
-        tempStagingFolder = strdup(mkdtemp(TEMP_DIR_TEMPLATE));
+        if (mkdtemp(TEMP_DIR_TEMPLATE) == NULL) {
+            return NULL;
+        }
+        tempStagingFolder = strdup(TEMP_DIR_TEMPLATE);
         DEBUG_PRINT("%s, tempStagingFolder = %s\n", __func__,
                     tempStagingFolder);
     }
-- 
2.43.0


From b58fe9e612d59169f7f583b9edf4022d4b32f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:52 +0000
Subject: [PATCH 41/56] fix: a directory that cannot be read to its end was
 packaged as if it ended there

---
 src/packagetool/utils.c | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index bf909f7..9f3c5e1 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -88,6 +88,26 @@ char *sourcePathFolder = NULL;
 // Copy directory to staging folder
 int stageFiles(char *copyFromPath, char *copyToPath);
 
+#ifndef WIN32
+/*****************************************************************
+ * Next entry of a directory. NULL at its end or if it cannot be
+ * read further; the latter sets failed.
+ ****************************************************************/
+static struct dirent *nextEntry(DIR *d, int *failed)
+{
+    struct dirent *entry;
+
+    errno = 0;
+    entry = readdir(d);
+    if (entry == NULL && errno != 0) {
+        printf("Error: Failed to read directory: %s\n", strerror(errno));
+        *failed = 1;
+    }
+
+    return entry;
+}
+#endif
+
 /*************************
  * Free allocated space.
  ************************/
@@ -1022,6 +1042,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     size_t path_len = 0;
     mlle_cr_context *context = context_in;
     struct stat info;
+    int failed = 0;
 
     // Find all.
     if (NULL == context) {
@@ -1049,7 +1070,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     }
 
     if (result && (d = opendir(fullPath))) {
-        while ((dir = readdir(d)) != NULL && (result == 1)) {
+        while ((dir = nextEntry(d, &failed)) != NULL && (result == 1)) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0) {
@@ -1081,6 +1102,9 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
             }
         }
         closedir(d);
+        if (failed) {
+            result = 0;
+        }
     } else {
         printf("Failed to open directory %s\n", searchPath);
         result = 0;
@@ -1526,6 +1550,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
     struct dirent *dir;
     char searchPath[MAX_PATH_LENGTH + 1];
     char zipPath[MAX_PATH_LENGTH + 1] = {'\0'};
+    int failed = 0;
 
     // Find all.
     snprintf(searchPath, MAX_PATH_LENGTH + 1, "%s", path);
@@ -1533,7 +1558,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
 
     if ((d = opendir(searchPath))) {
         result = 1; // return 'success' for empty directory
-        while ((dir = readdir(d)) != NULL) {
+        while ((dir = nextEntry(d, &failed)) != NULL) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0) {
@@ -1588,6 +1613,9 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
             }
         }
         closedir(d);
+        if (failed) {
+            result = 0;
+        }
     } else {
         printf("Failed to open directory %s\n", searchPath);
     }
@@ -1970,6 +1998,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
     char searchPath[MAX_PATH_LENGTH];
     char searchPathTo[MAX_PATH_LENGTH];
     char folderName[MAX_PATH_LENGTH];
+    int failed = 0;
 
     // Find all.
     snprintf(searchPath, MAX_PATH_LENGTH, "%s", fromPath);
@@ -1977,7 +2006,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
     // printf("searchPath: %s\n", searchPath);
 
     if ((d = opendir(searchPath))) {
-        while ((dir = readdir(d)) != NULL) {
+        while ((dir = nextEntry(d, &failed)) != NULL) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
@@ -2026,6 +2055,9 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
             }
         }
         closedir(d);
+        if (failed) {
+            result = 0;
+        }
     } else {
         printf("Failed to open directory %s\n", searchPath);
         return 0;
-- 
2.43.0


From 087d9bda5d415f489633efa233ca54d827e8e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:15 +0000
Subject: [PATCH 42/56] fix: files that cannot be looked at were packaged as if
 they did not exist

---
 src/packagetool/utils.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 9f3c5e1..f496408 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -106,6 +106,15 @@ static struct dirent *nextEntry(DIR *d, int *failed)
 
     return entry;
 }
+
+/**********************************************************
+ * After a file was not found: 1 if that means it does not
+ * exist, 0 if it could not be found out.
+ *********************************************************/
+static int doesNotExist()
+{
+    return errno == ENOENT || errno == ENOTDIR;
+}
 #endif
 
 /*************************
@@ -560,6 +569,12 @@ int copyLVE()
 
             // Store filename for later use.
             snprintf(lveList[i], MAX_STRING, "%s", lve[i]);
+#ifndef WIN32
+        } else if (!doesNotExist()) {
+            printf("Error: Failed to access %s: %s\n", path, strerror(errno));
+            free(path);
+            return 0;
+#endif
         } else {
             // Otherwise store empty string.
             lveList[i] = '\0';
@@ -612,6 +627,12 @@ int copyExtraFiles()
             goto cleanup;
         }
     }
+#ifndef WIN32
+    else if (!doesNotExist()) {
+        printf("Error: Failed to access %s: %s\n", path, strerror(errno));
+        ret = 0;
+    }
+#endif
 
 cleanup:
     free(dir_path);
@@ -1057,7 +1078,13 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     }
     // Find all.
     snprintf(searchPath, MAX_PATH_LENGTH + 1, "%s/package.mo", fullPath);
-    if (stat(searchPath, &info) == 0 && S_ISREG(info.st_mode)) {
+    if (stat(searchPath, &info) != 0) {
+        if (!doesNotExist()) {
+            printf("Error: Failed to access %s: %s\n", searchPath,
+                   strerror(errno));
+            result = 0;
+        }
+    } else if (S_ISREG(info.st_mode)) {
         if (relPath) {
             snprintf(searchPath, MAX_PATH_LENGTH + 1,
                      "%s/package.mo"
-- 
2.43.0


From 7ebb84afa54416f1351d7c8408d083a659cb7000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:07 +0000
Subject: [PATCH 43/56] fix: tool and dependency files that cannot be read were
 left out of the manifest

---
 src/packagetool/manifest.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index 05ffd48..daa1269 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -40,6 +40,9 @@ static int xml_in_attributes;
 /* Current XML generation state, true means we are have just printed a newline. */
 static int xml_on_new_line;
 
+// Set if something that belongs into the manifest could not be read.
+static int input_failed;
+
 #define XML_INDENT_STR "\t"
 
 
@@ -185,6 +188,7 @@ static void xml_init()
     xml_indent = 0;
     xml_in_attributes = 0;
     xml_on_new_line = 1;
+    input_failed = 0;
 }
 
 
@@ -218,7 +222,7 @@ int createManifestFile()
     addDependencies();
     addFooter();
 
-    failed = ferror(fd);
+    failed = ferror(fd) || input_failed;
     if (fclose(fd) != 0 || failed)
     {
         printf("Error: Couldn't write file %s.\n", pathAndFile);
@@ -490,7 +494,17 @@ void copyFileInformation(char *path)
         {
             putc('\n', fd);
         }
+        if (ferror(xmlfile))
+        {
+            printf("Error: Failed to read file %s.\n", path);
+            input_failed = 1;
+        }
         fclose(xmlfile);
     }
+    else
+    {
+        printf("Error: Couldn't open file %s for reading.\n", path);
+        input_failed = 1;
+    }
     xml_on_new_line = 1;
 }
-- 
2.43.0


From 222604563267ddbd20299e8958f983129f59754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:07 +0000
Subject: [PATCH 44/56] fix: linked files, and all files where directories come
 without types, were missing from the container

---
 src/packagetool/utils.c | 93 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 84 insertions(+), 9 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index f496408..0246900 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -115,6 +115,49 @@ static int doesNotExist()
 {
     return errno == ENOENT || errno == ENOTDIR;
 }
+
+/***************************************************************
+ * The type of a file, S_IFDIR, S_IFREG, ... . A link is what it
+ * leads to. -1 if that cannot be found out.
+ **************************************************************/
+static int fileType(const char *path)
+{
+    struct stat info;
+
+    if (stat(path, &info) != 0) {
+        printf("Error: Failed to access %s: %s\n", path, strerror(errno));
+        return -1;
+    }
+
+    return info.st_mode & S_IFMT;
+}
+
+/***************************************************************
+ * Is a directory a link to one of the directories it lies in?
+ **************************************************************/
+static int leadsBack(const char *path)
+{
+    char parent[MAX_PATH_LENGTH];
+    char *end;
+    struct stat info;
+    struct stat up;
+
+    if (lstat(path, &info) != 0 || !S_ISLNK(info.st_mode) ||
+        stat(path, &info) != 0) {
+        return 0;
+    }
+
+    snprintf(parent, MAX_PATH_LENGTH, "%s", path);
+    while ((end = strrchr(parent, '/')) != NULL && end != parent) {
+        *end = '\0';
+        if (stat(parent, &up) == 0 && up.st_dev == info.st_dev &&
+            up.st_ino == info.st_ino) {
+            return 1;
+        }
+    }
+
+    return 0;
+}
 #endif
 
 /*************************
@@ -1060,6 +1103,8 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     struct dirent *dir;
     char fullPath[MAX_PATH_LENGTH + 1];
     char searchPath[MAX_PATH_LENGTH + 1];
+    char entryPath[LONG_FILE_NAME_MAX];
+    int type;
     size_t path_len = 0;
     mlle_cr_context *context = context_in;
     struct stat info;
@@ -1109,8 +1154,16 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
                              dir->d_name);
                 }
 
+                snprintf(entryPath, LONG_FILE_NAME_MAX, "%s/%s", fullPath,
+                         dir->d_name);
+                type = fileType(entryPath);
+                if (type < 0) {
+                    result = 0;
+                    break;
+                }
+
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (type == S_IFDIR) {
                     // Use recursive to check the folder we found.
                     if (!encryptDirectoryLinux(topLevelPath, searchPath,
                                                context)) {
@@ -1119,7 +1172,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (type == S_IFREG) {
                     // Encrypt Modelica files, except package.mo which is done.
                     if (strcasecmp(dir->d_name, "package.mo") != 0 &&
                         isModelicaFile(dir->d_name)) {
@@ -1156,6 +1209,7 @@ int findFileLinux(const char *filename, const char *path)
 
     DIR *d;
     struct dirent *dir;
+    int type;
     char searchPath[MAX_PATH_LENGTH];
     size_t path_len = 0;
 
@@ -1177,8 +1231,10 @@ int findFileLinux(const char *filename, const char *path)
                              dir->d_name);
                 }
 
+                type = fileType(searchPath);
+
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (type == S_IFDIR) {
                     // Use recursive to check the folder we found.
                     if (findFileLinux(filename, searchPath)) {
                         result = 1;
@@ -1186,7 +1242,7 @@ int findFileLinux(const char *filename, const char *path)
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (type == S_IFREG) {
                     // Find a specific file.
                     if (strcmp(dir->d_name, filename) == 0) {
                         if (pathToIcon == NULL) {
@@ -1578,6 +1634,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
     char searchPath[MAX_PATH_LENGTH + 1];
     char zipPath[MAX_PATH_LENGTH + 1] = {'\0'};
     int failed = 0;
+    int type;
 
     // Find all.
     snprintf(searchPath, MAX_PATH_LENGTH + 1, "%s", path);
@@ -1601,8 +1658,14 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
 
                 // printf("zip: searchpath: %s\n", searchPath);
 
+                type = fileType(searchPath);
+                if (type < 0) {
+                    result = 0;
+                    break;
+                }
+
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (type == S_IFDIR) {
                     // Use recursive to check the folder we found.
                     result = zipDirectoryLinux(zip, searchPath, archiveName,
                                                encrypted);
@@ -1611,7 +1674,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (type == S_IFREG) {
                     // -----------------------------------------------------------------
                     // Only add file to archive when:
                     // 1. Files are not encrypted.
@@ -2015,7 +2078,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
     int result = 1;
 #if defined linux || defined DARWIN
     DIR *d;
-    struct stat info;
+    int type;
     struct dirent *dir;
     char *data = NULL;
     int bytes = 0;
@@ -2048,8 +2111,20 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                              dir->d_name);
                 }
 
+                type = fileType(searchPath);
+                if (type < 0) {
+                    result = 0;
+                    break;
+                }
+
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (type == S_IFDIR) {
+                    if (leadsBack(searchPath)) {
+                        printf("Error: %s links to a folder it is in.\n",
+                               searchPath);
+                        result = 0;
+                        break;
+                    }
 
                     snprintf(searchPathTo, MAX_PATH_LENGTH, "%s/%s", toPath,
                              dir->d_name);
@@ -2069,7 +2144,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (type == S_IFREG) {
                     // printf("Filnamn: %s\n", dir->d_name);
 
                     // file in new location.
-- 
2.43.0


From eb518c43e7d292fac92b0cf46eb0f18da2257fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:42 +0000
Subject: [PATCH 45/56] fix: files whose path is too long were packaged under
 another name

---
 src/packagetool/utils.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 0246900..8861c0f 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -2087,7 +2087,6 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
     FILE *fdWrite = NULL;
     char searchPath[MAX_PATH_LENGTH];
     char searchPathTo[MAX_PATH_LENGTH];
-    char folderName[MAX_PATH_LENGTH];
     int failed = 0;
 
     // Find all.
@@ -2111,6 +2110,17 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                              dir->d_name);
                 }
 
+                // Paths that do not fit are not packaged under another name.
+                if (snprintf(searchPathTo, MAX_PATH_LENGTH, "%s/%s", toPath,
+                             dir->d_name) >= MAX_PATH_LENGTH ||
+                    strlen(fromPath) + strlen(dir->d_name) + 2 >
+                        MAX_PATH_LENGTH) {
+                    printf("Error: Path too long: %s/%s\n", fromPath,
+                           dir->d_name);
+                    result = 0;
+                    break;
+                }
+
                 type = fileType(searchPath);
                 if (type < 0) {
                     result = 0;
@@ -2126,8 +2136,6 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                         break;
                     }
 
-                    snprintf(searchPathTo, MAX_PATH_LENGTH, "%s/%s", toPath,
-                             dir->d_name);
                     // TODO Create folder name.
 
                     if (mkdir(searchPathTo, 0777) == -1) {
@@ -2148,8 +2156,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     // printf("Filnamn: %s\n", dir->d_name);
 
                     // file in new location.
-                    snprintf(folderName, MAX_PATH_LENGTH, "%s/%s", toPath, dir->d_name);
-                    result = copyFile(searchPath, folderName);
+                    result = copyFile(searchPath, searchPathTo);
                     if (1 != result) {
                         break;
                     }
-- 
2.43.0


From 41d7dc02eb2b44bd2f9f24d13f06e699be5b466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 46/56] fix: the tool library kept memory for each answer it
 received

---
 src/common/mlle_utils.c   | 13 ++++---------
 src/tool/mlle_licensing.c |  7 +++++++
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 7079ef1..45e4d09 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -103,15 +103,7 @@ int mlle_read_command(SSL *ssl,
     int errorCode = 0;
     char *messageBuffer = NULL;
 
-    // The SSL buffer can hold at most 16 kb of data.
-    messageBuffer = calloc(SSL_RECORD_SIZE, 1);
-    if (messageBuffer == NULL) 
-    {
-        mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the message buffer");
-        return 0;
-    }
-
-    // Read data from SSL.
+    // Read data from SSL. This allocates the message buffer.
     bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
 
     // Check for error.
@@ -119,6 +111,7 @@ int mlle_read_command(SSL *ssl,
     {
         ssl_get_error_string(errorCode, error_msg, ERROR_SIZE);
         mlle_error_set_literal(error, 1, 1, error_msg);
+        free(messageBuffer);
         return 0;
     }
 
@@ -135,6 +128,7 @@ int mlle_read_command(SSL *ssl,
     if (token_buffer == NULL) 
     {
         mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the token buffer");
+        free(messageBuffer);
         return 0;
     }
     memcpy(token_buffer, messageBuffer, bytesRead);
@@ -156,6 +150,7 @@ int mlle_read_command(SSL *ssl,
         {
             mlle_error_set_literal(error, 1, 1, error_msg);
         }
+        free(messageBuffer);
         return 0;
     }
     assert(command->id != MLLE_PROTOCOL_UNDEFINED_CMD);
diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index d5c8315..c78a6d1 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -126,6 +126,8 @@ mlle_expect_command(SSL *ssl,
                 "Unexpected command. Expected command %s, but got command %s.",
                 mlle_command_info[expected_command_id].name,
                 mlle_command_info[command->id].name);
+        free(command->data);
+        command->data = NULL;
         return 0;
     }
 
@@ -183,6 +185,8 @@ mlle_expect_commands(SSL *ssl,
         }
         mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1, err_msg);
         free(err_msg);
+        free(command->data);
+        command->data = NULL;
         return 0;
     }
 
@@ -307,6 +311,7 @@ int mlle_tool_feature(const struct mlle_connections *connections,
     } else if (command.id == MLLE_PROTOCOL_NO_CMD) {
         mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, MLLE_TOOL_ERROR_NO_LICENSE,
                 "%s", command.data);
+        free(command.data);
         return 0;
     } else {
         /* Internal error. */
@@ -366,6 +371,7 @@ mlle_tool_license(const struct mlle_connections *connections,
     } else if (command.id == MLLE_PROTOCOL_NO_CMD) {
         mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, MLLE_TOOL_ERROR_NO_LICENSE,
                 "%s", command.data);
+        free(command.data);
         return 0;
     } else {
         /* Internal error. */
@@ -413,6 +419,7 @@ mlle_tool_file(const struct mlle_connections *connections,
     file_contents = calloc(1, sizeof(*file_contents));
     if (file_contents == NULL) {
         mlle_error_set_literal(error, 1, 1, "Out of memory.");
+        free(command.data);
         return NULL;
     }
     file_contents->file_size = command.length;
-- 
2.43.0


From be688af9b701145ae3677e13ce354058780283a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:58 +0000
Subject: [PATCH 47/56] fix: the tool library kept the keys and TLS context of
 each session

---
 src/common/mlle_ssl.c    | 11 +++++++++--
 src/tool/mlle_ssl_tool.c | 13 ++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index beb6c16..49f8c8e 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -100,20 +100,25 @@ SSL_CTX* create_CTX(char *private_key, int mode)
     if (SSL_CTX_set_cipher_list(ctx, "HIGH:!DSS:!aNULL@STRENGTH") == 0)
     {
         // Error setting ciphers to use.
+        SSL_CTX_free(ctx);
         return 0;
     }
 
     // Create RSA containing the private key.
     if ( (rsa = get_rsa(private_key)) == NULL)
     {
+        SSL_CTX_free(ctx);
         return 0;
     }
 
     // Connect private key to CTX.
     if (SSL_CTX_use_RSAPrivateKey(ctx, rsa) == 0)
     {
+        RSA_free(rsa);
+        SSL_CTX_free(ctx);
         return 0;
     }
+    RSA_free(rsa);
 
     return ctx;
 }
@@ -217,7 +222,7 @@ X509 *generate_X509(RSA *rsa)
 
     // Copy RSA to EVP_KEY.
     pkey = EVP_PKEY_new();
-    EVP_PKEY_assign_RSA(pkey, rsa);
+    EVP_PKEY_set1_RSA(pkey, rsa);
 
     x509 = X509_new();
 
@@ -243,8 +248,10 @@ X509 *generate_X509(RSA *rsa)
     // Sign the certificate with our key.
     if ( !X509_sign(x509, pkey, EVP_sha1()) )
     {
-        return NULL;
+        X509_free(x509);
+        x509 = NULL;
     }
+    EVP_PKEY_free(pkey);
 
     return x509;
 }
diff --git a/src/tool/mlle_ssl_tool.c b/src/tool/mlle_ssl_tool.c
index 9599e7d..5713138 100644
--- a/src/tool/mlle_ssl_tool.c
+++ b/src/tool/mlle_ssl_tool.c
@@ -49,7 +49,7 @@ int ssl_setup_tool(struct mlle_connections **lve, struct mlle_error **error)
     BIO *bioWrite = NULL;
     BIO *bioRead = NULL;
     RSA *rsa = NULL;
-    X509 *x509;
+    X509 *x509 = NULL;
     int result = 0;
     DECLARE_PRIVATE_KEY_TOOL();
 
@@ -106,16 +106,27 @@ int ssl_setup_tool(struct mlle_connections **lve, struct mlle_error **error)
 
     // Connect SSL with read and write BIO.
     SSL_set_bio(ssl, bioRead, bioWrite );
+    bioRead = NULL;
+    bioWrite = NULL;
 
     // Run new handshakes in the background.
     SSL_set_mode(ssl, SSL_MODE_AUTO_RETRY);
 
     (*lve)->ssl = ssl;
+    ssl = NULL;
     result = 1;
 
 cleanup:
     CLEAR_PRIVATE_KEY_TOOL();
 
+    // The SSL structure holds on to what it needs.
+    SSL_free(ssl);
+    BIO_free(bioWrite);
+    BIO_free(bioRead);
+    X509_free(x509);
+    RSA_free(rsa);
+    SSL_CTX_free(ctx);
+
     return result;
 }
 
-- 
2.43.0


From c040fc7e4e03157c3c847351e98df29e14ef4c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:58 +0000
Subject: [PATCH 48/56] fix: every session left a dead process behind, failed
 ones open pipes

---
 src/tool/mlle_spawn_posix.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index 14861a8..ca22da6 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -19,6 +19,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <sys/types.h>
+#include <sys/wait.h>
 #include <unistd.h>
 #include <errno.h>
 #include <signal.h>
@@ -77,6 +78,8 @@ mlle_spawn(const char *exec_name,
     status = pipe(child_to_parent_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
+        close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
         return NULL;
     }
 
@@ -84,9 +87,18 @@ mlle_spawn(const char *exec_name,
     switch (child_pid) {
     case -1:
         mlle_error_set_literal(error, 1, 1, "fork() failed.");
+        close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_READ_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
         return NULL;
 
     case 0:
+        // The LVE is not a child of the tool, which would have to wait for
+        // its end. If it can't be started, the tool finds its pipes closed.
+        if (fork() != 0) {
+            _exit(0);
+        }
         close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
         close(STDIN_FILENO);
         if (dup2(parent_to_child_pipe_fd[PIPE_READ_INDEX], STDIN_FILENO) == -1) {
@@ -113,12 +125,16 @@ mlle_spawn(const char *exec_name,
         close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
         // Keep no copy of the LVE's end, or a dead LVE would never give EOF.
         close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
+        while (waitpid(child_pid, NULL, 0) == -1 && errno == EINTR) {
+        }
         connections = calloc(1, sizeof(*connections));
         if (connections != NULL) {
             connections->fd_to_child = parent_to_child_pipe_fd[PIPE_WRITE_INDEX];
             connections->fd_from_child = child_to_parent_pipe_fd[PIPE_READ_INDEX];
         } else {
             mlle_error_set_literal(error, 1, 1, "Out of memory.");
+            close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
+            close(child_to_parent_pipe_fd[PIPE_READ_INDEX]);
         }
     }
 
-- 
2.43.0


From 9d3a5b6fe8d89dbc728307bef040545197bc9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:58 +0000
Subject: [PATCH 49/56] fix: files that could not be read stayed open

---
 src/common/mlle_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index 905234c..ca64799 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -142,6 +142,7 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
             error, 1, 1,
             "Couldn't find file size for %s. The error message was: %s",
             file_path, strerror(errno));
+        fclose(file);
         return NULL;
     }
     size = stat_info.st_size;
@@ -150,6 +151,7 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
     if (file_buffer == NULL) {
         mlle_error_set(error, 1, 1, "Couldn't allocate memory to read file: %s",
                        file_path);
+        fclose(file);
         return NULL;
     }
 
-- 
2.43.0


From 7829e81f591ad65bff2b8aba687adf88a5e61b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:05 +0000
Subject: [PATCH 50/56] fix: a call with an argument of more than 16 KB put the
 session out of step

---
 src/tool/mlle_licensing.c | 53 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index c78a6d1..175f220 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -98,6 +98,35 @@ cleanup:
 }
 
 
+/**********************************************************
+ * Send a command with a string to the LVE, which expects
+ * the whole message in one SSL record.
+ *
+ * Returns:
+ *      1 - the command was sent.
+ *      0 - the string is too long, nothing was sent.
+ *********************************************************/
+static int
+mlle_send_request(SSL *ssl,
+                  enum mlle_protocol_command_id command_id,
+                  const char *string,
+                  struct mlle_error **error)
+{
+    size_t length = strlen(string);
+    char line[NUMBER_FORM_BUFFER_SIZE] = { 0 };
+
+    snprintf(line, sizeof(line), "%s " MLLE_SIZE_T_FMT "\n",
+             mlle_command_info[command_id].name, length);
+    if (strlen(line) + length > SSL3_RT_MAX_PLAIN_LENGTH) {
+        mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "The argument of command %s is too long.",
+                mlle_command_info[command_id].name);
+        return 0;
+    }
+    mlle_send_string(ssl, command_id, string);
+    return 1;
+}
+
 static int
 mlle_expect_command(SSL *ssl,
                     enum mlle_protocol_command_id expected_command_id,
@@ -264,7 +293,9 @@ int mlle_tool_libpath(const struct mlle_connections *connections,
 
     assert(absolute_path != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_LIB_CMD, absolute_path);
+    if (!mlle_send_request(connections->ssl, MLLE_PROTOCOL_LIB_CMD, absolute_path, error)) {
+        return 0;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_YES_CMD, &command, error)) {
         return 0;
     }
@@ -299,7 +330,9 @@ int mlle_tool_feature(const struct mlle_connections *connections,
 
     assert(feature != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_FEATURE_CMD, feature);
+    if (!mlle_send_request(connections->ssl, MLLE_PROTOCOL_FEATURE_CMD, feature, error)) {
+        return 0;
+    }
     if (!mlle_expect_commands(connections->ssl, 2, expected_commands,
             &command, error))
     {
@@ -331,7 +364,9 @@ mlle_tool_returnfeature(const struct mlle_connections *connections,
 
     assert(feature != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_RETURNFEATURE_CMD, feature);
+    if (!mlle_send_request(connections->ssl, MLLE_PROTOCOL_RETURNFEATURE_CMD, feature, error)) {
+        return 0;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_YES_CMD,
             &command, error))
     {
@@ -355,7 +390,9 @@ mlle_tool_license(const struct mlle_connections *connections,
 
     assert(package != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_LICENSE_CMD, package);
+    if (!mlle_send_request(connections->ssl, MLLE_PROTOCOL_LICENSE_CMD, package, error)) {
+        return 0;
+    }
     if (!mlle_expect_commands(connections->ssl, 3, expected_commands,
             &command, error))
     {
@@ -389,7 +426,9 @@ mlle_tool_returnlicense(const struct mlle_connections *connections,
 
     assert(package != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_RETURNLICENSE_CMD, package);
+    if (!mlle_send_request(connections->ssl, MLLE_PROTOCOL_RETURNLICENSE_CMD, package, error)) {
+        return 0;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_YES_CMD,
             &command, error))
     {
@@ -409,7 +448,9 @@ mlle_tool_file(const struct mlle_connections *connections,
 
     assert(file_path != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_FILE_CMD, file_path);
+    if (!mlle_send_request(connections->ssl, MLLE_PROTOCOL_FILE_CMD, file_path, error)) {
+        return NULL;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_FILECONT_CMD,
             &command, error))
     {
-- 
2.43.0


From 1a89bedaad65f1a479b671d7b7ac1c223ee95f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:05 +0000
Subject: [PATCH 51/56] fix: an executable did not notice the end of the tool
 while a later one ran

---
 src/tool/mlle_spawn_posix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index ca22da6..cab396e 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -22,6 +22,7 @@
 #include <sys/wait.h>
 #include <unistd.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <signal.h>
 #include <string.h>
 #include "mlle_types.h"
@@ -83,6 +84,11 @@ mlle_spawn(const char *exec_name,
         return NULL;
     }
 
+    // Our ends are not for other LVEs that are started later: they would keep
+    // this one from noticing that we have terminated.
+    fcntl(parent_to_child_pipe_fd[PIPE_WRITE_INDEX], F_SETFD, FD_CLOEXEC);
+    fcntl(child_to_parent_pipe_fd[PIPE_READ_INDEX], F_SETFD, FD_CLOEXEC);
+
     child_pid = fork();
     switch (child_pid) {
     case -1:
-- 
2.43.0


From 36969c6c38ae99c149ff6016db57a3fb952f32ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:07 +0000
Subject: [PATCH 52/56] fix: no session could be started by a tool without
 standard input

---
 src/tool/mlle_spawn_posix.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index cab396e..716cbfb 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -30,6 +30,36 @@
 #include "mlle_spawn.h"
 
 
+/********************************************************************
+ * Like pipe(), but never with the descriptors of the standard streams,
+ * which are free if the tool was started without them: the LVE gets its
+ * own there, and what the tool prints is not for the LVE.
+ *******************************************************************/
+static int
+mlle_pipe(int fd[2])
+{
+    int i = 0;
+
+    if (pipe(fd) == -1) {
+        return -1;
+    }
+    for (i = 0; i < 2; i++) {
+        if (fd[i] <= STDERR_FILENO) {
+            int moved_fd = fcntl(fd[i], F_DUPFD, STDERR_FILENO + 1);
+
+            if (moved_fd == -1) {
+                close(fd[0]);
+                close(fd[1]);
+                return -1;
+            }
+            close(fd[i]);
+            fd[i] = moved_fd;
+        }
+    }
+    return 0;
+}
+
+
 /********************************************************************
  * Setup pipes and start up connection to LVE (server) on Linux.
  * 
@@ -71,12 +101,12 @@ mlle_spawn(const char *exec_name,
     }
 
     fflush(NULL);
-    status = pipe(parent_to_child_pipe_fd);
+    status = mlle_pipe(parent_to_child_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
         return NULL;
     }
-    status = pipe(child_to_parent_pipe_fd);
+    status = mlle_pipe(child_to_parent_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
         close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
-- 
2.43.0


From d06b4c9f551ac6314f55111463ff40808cbd76ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:21 +0000
Subject: [PATCH 53/56] fix: a package file that cannot be read was taken for a
 missing one

encrypt_file, packagetool and the licensing executable then used the key of
the directory above: encryption succeeded with a key that is never found
again, and a file moved here from the directory above was delivered.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 1e4ad5b..9ad3262 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -21,6 +21,9 @@
 #include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
+#include <errno.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 #include <openssl/evp.h>
 #include <openssl/hmac.h>
 #include "mlle_cr_crypt.h"
@@ -67,6 +70,16 @@ void mlle_debug_log_key(const unsigned char* key) { }
 #endif
 
 
+/* Whether there is, or may be, a file (not a directory) with this name. */
+static int file_exists(const char* path) {
+    struct stat stat_info;
+    if (stat(path, &stat_info) != 0) {
+        return errno != ENOENT && errno != ENOTDIR && errno != ENAMETOOLONG;
+    }
+    return (stat_info.st_mode & S_IFMT) != S_IFDIR;
+}
+
+
 int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigned char* key) {
     char path[MLLE_LONG_FILE_NAME_MAX];
     char fullpath[MLLE_LONG_FILE_NAME_MAX];
@@ -149,7 +162,12 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     snprintf(fullpath, sizeof(fullpath), "%s/%s", context->basedir, path);
     file_buffer = mlle_io_read_file(fullpath, &file_size, &error);
     if (error) {
-        /* assume that no file exists; read mask from parent */
+        if (file_exists(fullpath)) {
+            /* the mask of this directory is not known; any other would be wrong */
+            ret = -1;
+            goto cleanup;
+        }
+        /* no file exists; read mask from parent */
         ret = (mlle_demask_key(context, path, key) < 0) ? -1 : 0;
     }
     else {
-- 
2.43.0


From 419a2e1dc14be5d67bac4d5d2d219ff7b5ee3ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:37 +0000
Subject: [PATCH 54/56] fix: executables started by several threads at once
 kept each other's pipes open

An executable that was started while another thread was starting one got the
pipes of that session too: calls to the other executable did not return when
it had ended, and the other executable did not notice the end of its session.
---
 src/tool/mlle_spawn_posix.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index 716cbfb..287ed2f 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -15,6 +15,9 @@
 */
 
 #define _XOPEN_SOURCE 700
+#ifdef __linux__
+#define _GNU_SOURCE /* pipe2() */
+#endif
 #include <stddef.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -34,18 +37,30 @@
  * Like pipe(), but never with the descriptors of the standard streams,
  * which are free if the tool was started without them: the LVE gets its
  * own there, and what the tool prints is not for the LVE.
+ *
+ * Other LVEs, also those started by other threads at the same time, don't
+ * get the descriptors: they would keep the LVE from noticing that we have
+ * terminated, and us from noticing that the LVE has.
  *******************************************************************/
 static int
 mlle_pipe(int fd[2])
 {
     int i = 0;
 
+#ifdef __linux__
+    if (pipe2(fd, O_CLOEXEC) == -1) {
+        return -1;
+    }
+#else
     if (pipe(fd) == -1) {
         return -1;
     }
+    fcntl(fd[0], F_SETFD, FD_CLOEXEC);
+    fcntl(fd[1], F_SETFD, FD_CLOEXEC);
+#endif
     for (i = 0; i < 2; i++) {
         if (fd[i] <= STDERR_FILENO) {
-            int moved_fd = fcntl(fd[i], F_DUPFD, STDERR_FILENO + 1);
+            int moved_fd = fcntl(fd[i], F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
 
             if (moved_fd == -1) {
                 close(fd[0]);
@@ -114,11 +129,6 @@ mlle_spawn(const char *exec_name,
         return NULL;
     }
 
-    // Our ends are not for other LVEs that are started later: they would keep
-    // this one from noticing that we have terminated.
-    fcntl(parent_to_child_pipe_fd[PIPE_WRITE_INDEX], F_SETFD, FD_CLOEXEC);
-    fcntl(child_to_parent_pipe_fd[PIPE_READ_INDEX], F_SETFD, FD_CLOEXEC);
-
     child_pid = fork();
     switch (child_pid) {
     case -1:
-- 
2.43.0


From ff1f4850fd39e5f4a2a7cf1e55ac5c903b51d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:00 +0000
Subject: [PATCH 55/56] fix: starting an executable or sending a message waited
 for other threads' reads

fflush(NULL) waits for every stream that another thread is reading from, so
while one thread of a program waited for input no other could use a session.
Only what was written to the connection (and the log) has to be flushed.
---
 src/common/mlle_ssl.c       | 8 +++++++-
 src/tool/mlle_spawn_posix.c | 1 -
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index 49f8c8e..3692f1f 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -37,6 +37,7 @@
 #include "mlle_lve.h"
 #include "mlle_ssl.h"
 #include "mlle_error.h"
+#include "mlle_io.h"
 
 char *global_tool_pub_key;
 
@@ -293,7 +294,12 @@ int ssl_write_message(SSL *ssl, char *message, size_t len)
     }
 
     // Must flush here otherwise the message will not be sent properly.
-    fflush(NULL);
+    // Only our own streams: flushing all would wait for every other thread
+    // of the program that is reading from some stream.
+    (void) BIO_flush(SSL_get_wbio(ssl));
+    if (mlle_log) {
+        fflush(mlle_log);
+    }
 
     return bytes;
 }
diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index 287ed2f..8d27699 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -115,7 +115,6 @@ mlle_spawn(const char *exec_name,
         return NULL;
     }
 
-    fflush(NULL);
     status = mlle_pipe(parent_to_child_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
-- 
2.43.0


From 50a1b19d01a778e7d7922439374e551fb33a728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:22 +0000
Subject: [PATCH 56/56] fix: a handled signal during the start of an executable
 made it fail

---
 src/tool/mlle_ssl_tool.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tool/mlle_ssl_tool.c b/src/tool/mlle_ssl_tool.c
index 5713138..eb6c9fb 100644
--- a/src/tool/mlle_ssl_tool.c
+++ b/src/tool/mlle_ssl_tool.c
@@ -155,12 +155,17 @@ int tool_perform_handshake(struct mlle_connections **lve, struct mlle_error **er
         return 0;
     }
 
-    // Try to connect with LVE (server).
-    result = SSL_connect((*lve)->ssl);
+    // Try to connect with LVE (server). Go on if a signal that the program
+    // handles has interrupted the handshake.
+    do
+    {
+        result = SSL_connect((*lve)->ssl);
+        errorCode = SSL_get_error((*lve)->ssl, result);
+    } while (result <= 0 && (errorCode == SSL_ERROR_WANT_READ || errorCode == SSL_ERROR_WANT_WRITE));
+
     if (result <= 0)
     {
         // Get reason for handshake error.
-        errorCode = SSL_get_error((*lve)->ssl, result);
         ssl_get_error_string(errorCode, errorString, SSL_ERROR_BUF_LEN);
         mlle_error_set(error, 1, 2, "SSL: Handshake failed. Reason: %s", errorString);
         return 0;
-- 
2.43.0

