From 5f26c1ebec7fafe3dda78b7dbc18d7b7fbadea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 01/63] fix: read files and stdin completely or report an error

A pipe or other unseekable file given by name overflowed the heap, short
or interrupted reads were errors or ignored, failed auxiliary reads
continued with uninitialised bytes, and failing loads leaked.
---
 src/main/c/xmq-cli.c |  58 +++++++++++-------
 src/main/c/xmq.c     | 139 ++++++++++++++++++++-----------------------
 2 files changed, 101 insertions(+), 96 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 9f2f889..a478b23 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -30,6 +30,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include"parts/yaep.h"
 
 #include<assert.h>
+#include<errno.h>
 #include<ctype.h>
 #include<memory.h>
 #include<string.h>
@@ -1019,20 +1020,8 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
         {
             const char *file = arg+17;
             verbose_("xmq=", "reading text file %s", file);
-            FILE *f = fopen(file, "rb");
-            if (!f)
-            {
-                error_("xmq.err=", "%s: No such file or directory", file);
-                return false;
-            }
-            fseek(f, 0L, SEEK_END);
-            size_t sz = ftell(f);
-            fseek(f, 0L, SEEK_SET);
-            char *buf = (char*)malloc(sz+1);
-            size_t n = fread(buf, 1, sz, f);
-            buf[sz] = 0;
-            if (n != sz) printf("ARRRRRGGGG\n");
-            fclose(f);
+            char *buf = load_file_into_buffer(file);
+            if (!buf) return false;
             command->content = buf;
             return true;
         }
@@ -4095,14 +4084,41 @@ char *load_file_into_buffer(const char *file)
         fprintf(stderr, "xmq: %s: No such file or directory\n", file);
         return NULL;
     }
-    fseek(f, 0L, SEEK_END);
-    size_t sz = ftell(f);
-    fseek(f, 0L, SEEK_SET);
-    char *buf = (char*)malloc(sz+1);
-    size_t n = fread(buf, 1, sz, f);
-    buf[sz] = 0;
-    if (n != sz) printf("ARRRRRGGGG\n");
+    // The size is only known for files that can be seeked, a pipe has to be read until it ends.
+    long sz = -1;
+    if (fseek(f, 0L, SEEK_END) == 0) sz = ftell(f);
+    bool ok = sz < 0 || fseek(f, 0L, SEEK_SET) == 0;
+    char *buf = NULL;
+    size_t n = 0, capacity = 0;
+    while (ok)
+    {
+        size_t block_size = 10000;
+        if (n + block_size > capacity)
+        {
+            capacity = n + n/2 + block_size;
+            char *tmp = (char*)realloc(buf, capacity + 1);
+            if (!tmp) { ok = false; break; }
+            buf = tmp;
+        }
+        errno = 0;
+        size_t r = fread(buf+n, 1, block_size, f);
+        n += r;
+        if (ferror(f))
+        {
+            if (errno != EINTR) { ok = false; break; }
+            clearerr(f);
+            continue;
+        }
+        if (r < block_size) break;
+    }
     fclose(f);
+    if (!ok || (sz >= 0 && n < (size_t)sz))
+    {
+        fprintf(stderr, "xmq: %s: Cannot read file\n", file);
+        free(buf);
+        return NULL;
+    }
+    buf[n] = 0;
     return buf;
 }
 
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 8691d85..0d6e41b 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1003,7 +1003,12 @@ bool xmqTokenizeFile(XMQParseState *state, const char *file)
         xmqSetDocSourceName(doq, "-");
         rc = load_stdin(doq, &fsize, &buffer);
     }
-    if (!rc) return false;
+    if (!rc)
+    {
+        state->error_nr = (XMQParseError)xmqDocErrno(doq);
+        state->generated_error_msg = strdup(xmqDocError(doq));
+        goto exit;
+    }
 
     xmqSetStateSourceName(state, file);
 
@@ -1866,57 +1871,14 @@ bool xmqParseBuffer(XMQDoc *doq, const char *start, const char *stop, const char
 bool xmqParseFile(XMQDoc *doq, const char *file, const char *implicit_root, int flags)
 {
     bool ok = true;
-    char *buffer = NULL;
+    const char *buffer = NULL;
     size_t fsize = 0;
     XMQContentType content = XMQ_CONTENT_XMQ;
-    size_t block_size = 0;
-    size_t n = 0;
 
     xmqSetDocSourceName(doq, file);
 
-    FILE *f = fopen(file, "rb");
-    if (!f) {
-        doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
-        doq->error_ = build_error_message("xmq: %s: No such file or directory\n", file);
-        ok = false;
-        goto exit;
-    }
-
-    fseek(f, 0, SEEK_END);
-    fsize = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    buffer = (char*)malloc(fsize + 1);
-    if (!buffer)
-    {
-        doq->errno_ = XMQ_ERROR_OOM;
-        doq->error_ = build_error_message("xmq: %s: File too big, out of memory\n", file);
-        ok = false;
-        goto exit;
-    }
-
-    block_size = fsize;
-    if (block_size > 10000) block_size = 10000;
-    n = 0;
-    do {
-        // We need to read smaller blocks because of a bug in Windows C-library..... blech.
-        if (n + block_size > fsize) block_size = fsize - n;
-        size_t r = fread(buffer+n, 1, block_size, f);
-        debug("xmq=", "read %zu bytes total %zu", r, n);
-        if (!r) break;
-        n += r;
-    } while (n < fsize);
-
-    debug("xmq=", "read total %zu bytes", n);
-
-    if (n != fsize)
-    {
-        ok = false;
-        doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
-        goto exit;
-    }
-    fclose(f);
-    buffer[fsize] = 0;
+    ok = load_file(doq, file, &fsize, &buffer);
+    if (!ok) return false;
 
     content = xmqDetectContentType(buffer, buffer+fsize);
     if (content != XMQ_CONTENT_XMQ)
@@ -1930,7 +1892,7 @@ bool xmqParseFile(XMQDoc *doq, const char *file, const char *implicit_root, int
 
     exit:
 
-    free(buffer);
+    free((void*)buffer);
 
     return ok;
 }
@@ -4151,8 +4113,10 @@ bool load_stdin(XMQDoc *doq, size_t *out_fsize, const char **out_buffer)
             if (errno == EINTR) {
                 continue;
             }
-            PRINT_ERROR("Could not read stdin errno=%d\n", errno);
+            doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
+            doq->error_ = build_error_message("xmq: Could not read stdin errno=%d\n", errno);
             close(fd);
+            free_membuffer_and_free_content(mb);
 
             return false;
         }
@@ -4172,8 +4136,12 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
 {
     bool rc = false;
     char *buffer = NULL;
-    size_t block_size = 0;
+    size_t capacity = 0;
     size_t n = 0;
+    long fsize = -1;
+
+    *out_fsize = 0;
+    *out_buffer = NULL;
 
     FILE *f = fopen(file, "rb");
     if (!f) {
@@ -4182,47 +4150,68 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
         return false;
     }
 
-    fseek(f, 0, SEEK_END);
-    size_t fsize = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    debug("xmq=", "file size %zu", fsize);
-
-    buffer = (char*)malloc(fsize + 1);
-    if (!buffer)
+    // The size is only known for files that can be seeked, a pipe has to be read until it ends.
+    if (fseek(f, 0, SEEK_END) == 0) fsize = ftell(f);
+    if (fsize >= 0 && fseek(f, 0, SEEK_SET) != 0)
     {
-        doq->errno_ = XMQ_ERROR_OOM;
-        doq->error_ = build_error_message("xmq: %s: File too big, out of memory\n", file);
+        doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
+        doq->error_ = build_error_message("xmq: %s: Cannot read file\n", file);
         goto exit;
     }
 
-    block_size = fsize;
-    if (block_size > 10000) block_size = 10000;
-    n = 0;
-    do {
-        if (n + block_size > fsize) block_size = fsize - n;
+    debug("xmq=", "file size %ld", fsize);
+
+    for (;;)
+    {
+        // We need to read smaller blocks because of a bug in Windows C-library..... blech.
+        size_t block_size = 10000;
+        if (n + block_size > capacity)
+        {
+            capacity = n + n/2 + block_size;
+            char *tmp = (char*)realloc(buffer, capacity + 1);
+            if (!tmp)
+            {
+                doq->errno_ = XMQ_ERROR_OOM;
+                doq->error_ = build_error_message("xmq: %s: File too big, out of memory\n", file);
+                goto exit;
+            }
+            buffer = tmp;
+        }
+        errno = 0;
         size_t r = fread(buffer+n, 1, block_size, f);
-        debug("xmq=", "read %zu bytes total %zu", r, n);
-        if (!r) break;
         n += r;
-    } while (n < fsize);
+        debug("xmq=", "read %zu bytes total %zu", r, n);
+        if (ferror(f))
+        {
+            if (errno != EINTR) break;
+            clearerr(f);
+            continue;
+        }
+        if (r < block_size) break;
+    }
 
-    debug("xmq=", "read total %zu bytes fsize %zu bytes", n, fsize);
+    debug("xmq=", "read total %zu bytes fsize %ld bytes", n, fsize);
 
-    if (n != fsize) {
-        rc = false;
+    if (ferror(f) || (fsize >= 0 && n < (size_t)fsize)) {
         doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
         doq->error_ = build_error_message("xmq: %s: Cannot read file\n", file);
         goto exit;
     }
-    fclose(f);
-    buffer[fsize] = 0;
+    buffer[n] = 0;
     rc = true;
 
 exit:
 
-    *out_fsize = fsize;
-    *out_buffer = buffer;
+    fclose(f);
+    if (rc)
+    {
+        *out_fsize = n;
+        *out_buffer = buffer;
+    }
+    else
+    {
+        free(buffer);
+    }
     return rc;
 }
 
-- 
2.43.0


From a72a83617e533c67c4035b4994bfd6302b9b7e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 02/63] fix: exit with an error when standard output could not
 be written

---
 src/main/c/xmq-cli.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index a478b23..e88b9c5 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -3073,7 +3073,7 @@ void put_char(int c)
 void console_write(const char *start, const char *stop)
 {
 #ifndef PLATFORM_WINAPI
-    printf("%.*s", (int)(stop-start), start);
+    fwrite(start, 1, stop-start, stdout);
 #else
 	HANDLE out = GetStdHandle(STD_OUTPUT_HANDLE);
     DWORD wrote = 0;
@@ -3987,9 +3987,21 @@ xmqDocDefaultLoaderFunc(const xmlChar * URI,
     */
 }
 
+// Invoked last when exiting. If some part of the output could not be delivered then
+// the exit status must say so.
+void check_stdout_delivered()
+{
+    if (fflush(stdout) != 0 || ferror(stdout))
+    {
+        fprintf(stderr, "xmq: could not write all output\n");
+        _exit(1);
+    }
+}
+
 int main(int argc, const char **argv)
 {
     int rc = 0;
+    atexit(check_stdout_delivered);
     if (argc < 2 && isatty(0)) cmd_help(NULL);
 
     verbose_enabled__ = has_verbose(argc, argv);
-- 
2.43.0


From 141b88a2c5888ff862de4d888022986b2ab07c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 03/63] fix: save-to reports a failed write or close in the
 exit status

---
 src/main/c/xmq-cli.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index e88b9c5..dd17928 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2017,13 +2017,14 @@ bool cmd_output(XMQCliCommand *command)
             return false;
         }
         size_t wrote = fwrite(command->env->out_start + command->env->out_skip, 1, len, f);
-        if (wrote != len)
+        bool closed = fclose(f) == 0;
+        free(command->env->out_start);
+        if (wrote != len || !closed)
         {
             fprintf(stderr, "xmq: Failed to write all bytes to %s wrote %zu but expected %zu\n",
                     command->save_file, wrote, len);
+            return false;
         }
-        free(command->env->out_start);
-        fclose(f);
 
         return true;
     }
-- 
2.43.0


From 87b1a59a6169dd4ee722597be6fbe88191bc70ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 04/63] fix: browse reports a file it could not create or write
 completely

---
 src/main/c/xmq-cli.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index dd17928..e3176d1 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -335,7 +335,7 @@ bool handle_global_option(const char *arg, XMQCliCommand *command);
 bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command);
 void invoke_shell(xmlNode *n, const char *cmd);
 void page(const char *start, const char *stop);
-void browse(XMQCliCommand *c);
+bool browse(XMQCliCommand *c);
 void open_browser(const char *file);
 bool perform_command(XMQCliCommand *c);
 void prepare_command(XMQCliCommand *c, XMQCliCommand *load_command);
@@ -1997,9 +1997,9 @@ bool cmd_output(XMQCliCommand *command)
     if (command->cmd == XMQ_CLI_CMD_BROWSER)
     {
         verbose_("xmq=", "cmd-browser output");
-        browse(command);
+        bool ok = browse(command);
         free(command->env->out_start);
-        return true;
+        return ok;
     }
     if (command->cmd == XMQ_CLI_CMD_SAVE_TO)
     {
@@ -3186,7 +3186,7 @@ KEY read_key(int *c)
 }
 
 
-void browse(XMQCliCommand *c)
+bool browse(XMQCliCommand *c)
 {
     const char *file;
 
@@ -3216,18 +3216,35 @@ void browse(XMQCliCommand *c)
     // since such a link could trick you into overwriting something else.
     int fd = open(tmpfile, O_CREAT | O_TRUNC | O_NOFOLLOW | O_RDWR, 0666);
 #endif
-    size_t len = c->env->out_stop - c->env->out_start - c->env->out_skip;
-    size_t wrote = write(fd, c->env->out_start, len);
-    close(fd);
+    if (fd < 0)
+    {
+        fprintf(stderr, "xmq: %s: Cannot open file for writing\n", tmpfile);
+        return false;
+    }
 
-    if (wrote == len)
+    bool ok = true;
+    const char *from = c->env->out_start + c->env->out_skip;
+    while (from < c->env->out_stop)
     {
-        open_browser(tmpfile);
+        ssize_t n = write(fd, from, c->env->out_stop - from);
+        if (n < 0 && errno == EINTR) continue;
+        if (n <= 0)
+        {
+            ok = false;
+            break;
+        }
+        from += n;
     }
-    else
+    if (close(fd) != 0) ok = false;
+
+    if (!ok)
     {
         fprintf(stderr, "xmq: Failed to write content to %s\n", tmpfile);
+        return false;
     }
+
+    open_browser(tmpfile);
+    return true;
 }
 
 bool shell_safe(char *i)
-- 
2.43.0


From 2adc72b0f8741a1b5742fcb1863378472a216f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 05/63] fix: print load errors as text, not as format strings

---
 src/main/c/xmq-cli.c | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index e3176d1..0c2a71a 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -305,6 +305,7 @@ bool cmd_load(XMQCliCommand *command);
 const char *cmd_name(XMQCliCmd cmd);
 bool cmd_to(XMQCliCommand *command);
 bool cmd_output(XMQCliCommand *command);
+void print_load_error(XMQDoc *doq, const char *file);
 bool cmd_transform(XMQCliCommand *command);
 bool cmd_validate(XMQCliCommand *command);
 void cmd_unload(XMQCliCommand *command);
@@ -1102,8 +1103,7 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
 
             if (!ok)
             {
-                const char *error = xmqDocError(doq);
-                fprintf(stderr, error, command->in);
+                print_load_error(doq, arg);
                 xmqFreeDoc(doq);
                 return false;
             }
@@ -1156,8 +1156,7 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
 
             if (!ok)
             {
-                const char *error = xmqDocError(doq);
-                fprintf(stderr, error, command->in);
+                print_load_error(doq, arg);
                 xmqFreeDoc(doq);
                 return false;
             }
@@ -1900,10 +1899,7 @@ bool cmd_load(XMQCliCommand *command)
 
         if (!ok)
         {
-            const char *error = xmqDocError(command->env->doc);
-            if (error) {
-                fprintf(stderr, error, command->in);
-            }
+            print_load_error(command->env->doc, command->in);
             xmqFreeDoc(command->env->doc);
             command->env->doc = NULL;
             return false;
@@ -1916,6 +1912,28 @@ bool cmd_load(XMQCliCommand *command)
     return true;
 }
 
+void print_load_error(XMQDoc *doq, const char *file)
+{
+    const char *error = xmqDocError(doq);
+
+    if (error)
+    {
+        fprintf(stderr, "%s", error);
+        return;
+    }
+
+    switch (xmqDocErrno(doq))
+    {
+    case XMQ_ERROR_NONE:
+    case XMQ_ERROR_PARSING_XML:
+    case XMQ_ERROR_PARSING_HTML:
+        // Libxml2 has already printed the error.
+        break;
+    default:
+        fprintf(stderr, "xmq: %s: %s\n", file ? file : "stdin", xmqParseErrorToString(xmqDocErrno(doq)));
+    }
+}
+
 void cmd_unload(XMQCliCommand *command)
 {
     if (command && command->env && command->env->doc)
@@ -2300,8 +2318,7 @@ bool cmd_add(XMQCliCommand *command)
     bool ok = xmqParseBuffer(doq, start, stop, NULL, 0);
     if (!ok)
     {
-        const char *error = xmqDocError(doq);
-        fprintf(stderr, error, command->in);
+        print_load_error(doq, "add");
         xmqFreeDoc(doq);
         return false;
     }
@@ -3949,10 +3966,7 @@ xmqDocDefaultLoaderFunc(const xmlChar * URI,
                                    XMQ_FLAG_TRIM_NONE);
     if (!ok)
     {
-        const char *error = xmqDocError(doq);
-        if (error) {
-            fprintf(stderr, error, URI);
-        }
+        print_load_error(doq, (const char*)URI);
         xmqFreeDoc(doq);
         return NULL;
     }
-- 
2.43.0


From 9c009382def6218348a924875d95ea4991592020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 06/63] fix: an xmq attribute list with an invalid character is
 an error, not an endless loop

---
 src/main/c/parts/xmq_parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 3131a1a..690807b 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -837,9 +837,17 @@ void parse_xmq_attribute(XMQParseState *state)
     int start_line = state->line;
     int start_col = state->col;
 
+    const char *start_of_key = state->i;
     eat_xmq_text_name(state, &name_start, &name_stop, &ns_start, &ns_stop);
     const char *stop = state->i;
 
+    if (stop == start_of_key)
+    {
+        // No progress, this character cannot start an attribute key.
+        state->error_nr = XMQ_ERROR_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
+
     if (!ns_start)
     {
         // No colon found, we have either a normal: key=123
-- 
2.43.0


From 6fbc5aac6171d9f1e475ebe1e513fce401111e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 07/63] fix: select and delete no longer use freed nodes or
 lose the root link

---
 src/main/c/parts/xml.c |  4 ++++
 src/main/c/xmq-cli.c   | 38 +++++++++++++++++++++++++++++++++-----
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index 8a0be51..db79aa9 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -288,6 +288,10 @@ int decode_entity_ref(const char *name)
 
 void xml_add_root_child(xmlDoc *doc, xmlNode *node)
 {
+    // Set the owner, otherwise the node cannot be unlinked from the document.
+    xmlSetTreeDoc(node, doc);
+    node->parent = (xmlNodePtr)doc;
+
     if (doc->children == NULL)
     {
         doc->children = node;
diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 0c2a71a..da6d80e 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2237,27 +2237,49 @@ bool cmd_select(XMQCliCommand *command)
     xmlNodeSetPtr nodes = objects->nodesetval;
     int size = (nodes) ? nodes->nodeNr : 0;
 
-    // Copy and unlink in reverse order which means copy unlink deeper nodes first.
-    for(int i = size-1; i >= 0; i--)
+    // First find the node to select for each match.
+    xmlNodeSetPtr selected = xmlXPathNodeSetCreate(NULL);
+    for(int i = 0; i < size; ++i)
     {
         assert(nodes->nodeTab[i]);
         xmlNode *n = nodes->nodeTab[i];
 
+        // There is nothing to copy for a namespace declaration.
+        if (n->type == XML_NAMESPACE_DECL) continue;
+
         while (n && !is_element_node(n) && !is_content_node(n))
         {
             // We found an attribute move to parent.
             n = n->parent;
         }
+        // Several matches can share the same parent, but each node is added only once.
+        if (n) xmlXPathNodeSetAdd(selected, n);
+    }
+    // Moving to the parent might have disturbed the document order.
+    xmlXPathNodeSetSort(selected);
+
+    // Copy and unlink in reverse order which means copy unlink deeper nodes first.
+    for(int i = selected->nodeNr-1; i >= 0; i--)
+    {
+        xmlNode *n = selected->nodeTab[i];
         xmlNodePtr new_node = xmlCopyNode(n, 1);
         xml_add_root_child(new_doc, new_node);
 
         xmlUnlinkNode(n);
-        xmlFreeNode(n);
     }
 
+    // The node sets must not refer to freed nodes, thus free the nodes after the node sets.
+    size = selected->nodeNr;
+    xmlNodePtr *unlinked = (xmlNodePtr*)malloc(sizeof(xmlNodePtr)*(size+1));
+    if (size > 0) memcpy(unlinked, selected->nodeTab, sizeof(xmlNodePtr)*size);
+    xmlXPathFreeNodeSet(selected);
+
     xmlXPathFreeObject(objects);
     xmlXPathFreeContext(ctx);
 
+    for (int i = 0; i < size; ++i) xmlFreeNode(unlinked[i]);
+    free(unlinked);
+
     xmlFreeDoc(doc);
     xmqSetImplementationDoc(command->env->doc, new_doc);
 
@@ -2583,9 +2605,15 @@ bool delete_xpath(XMQCliCommand *command)
     for(int i = size-1; i >= 0; i--)
     {
         assert(nodes->nodeTab[i]);
+        xmlNodePtr n = nodes->nodeTab[i];
 
-        xmlUnlinkNode(nodes->nodeTab[i]);
-        xmlFreeNode(nodes->nodeTab[i]);
+        // A namespace declaration belongs to the node set and the document itself cannot be deleted.
+        if (n->type == XML_NAMESPACE_DECL || n == (xmlNodePtr)doc) continue;
+
+        // The node set must not refer to the freed node.
+        nodes->nodeTab[i] = NULL;
+        xmlUnlinkNode(n);
+        xmlFreeNode(n);
     }
 
     xmlXPathFreeObject(objects);
-- 
2.43.0


From 3604f99da723db340617544d90b27042d4443cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 08/63] fix: replace-entity and substitute work on every top
 level node and on documents without a root element

---
 src/main/c/xmq-cli.c | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index da6d80e..1e37806 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -350,6 +350,7 @@ KEY read_key(int *c);
 const char *render_format_to_string(XMQRenderFormat rt);
 xmlNodePtr replace_entity(xmlDoc *doc, xmlNodePtr node, const char *entity, const char *content, xmlNodePtr node_content);
 void replace_entities(xmlDoc *doc, const char *entity, const char *content, xmlNodePtr node_content);
+void substitute_entities(xmlDoc *doc, const char *entity, bool only_chars);
 void substitute_entity(xmlDoc *doc, xmlNodePtr node, const char *entity, bool only_chars);
 bool query_xterm_bgcolor();
 XMQRenderStyle terminal_render_theme(bool *use_color, bool *bg_dark_mode);
@@ -1116,10 +1117,8 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
             {
                 // We want to be able to use char entities in the xslq by default.
                 // So we replace any explicit &#10; with actual newlines etc.
-                xmlNodePtr root = xmlDocGetRootElement(xslt);
-                while (root->prev) root = root->prev;
                 // Replace all char entities! I.e. &#10; is replaced with a newline.
-                substitute_entity(xslt, root, NULL, true);
+                substitute_entities(xslt, NULL, true);
             }
             command->xslt_doq = doq;
             command->xslt = xsltParseStylesheetDoc(xslt);
@@ -2697,18 +2696,14 @@ void replace_entities(xmlDoc *doc, const char *entity, const char *content, xmlN
 
     while (i)
     {
-        replace_entity(doc, i, entity, content, node_content);
-        i = i->next;
+        // The node i might be freed in replace_entity.
+        i = replace_entity(doc, i, entity, content, node_content);
     }
 }
 
 bool cmd_replace(XMQCliCommand *command)
 {
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(command->env->doc);
-    xmlNodePtr root = xmlDocGetRootElement(doc);
-
-    while (root->prev) root = root->prev;
-    assert(root != NULL);
 
     if (command->xpath)
     {
@@ -2719,6 +2714,11 @@ bool cmd_replace(XMQCliCommand *command)
     {
         verbose_("xmq=", "replacing entity %s", command->entity);
 
+        if (!command->content && !command->node_content)
+        {
+            fprintf(stderr, "xmq: replace-entity is missing the content to replace %s with\n", command->entity);
+            return false;
+        }
         replace_entities(doc, command->entity, command->content, command->node_content);
     }
 
@@ -2772,25 +2772,32 @@ void substitute_entity(xmlDoc *doc, xmlNode *node, const char *entity, bool only
     }
 }
 
+void substitute_entities(xmlDoc *doc, const char *entity, bool only_chars)
+{
+    xmlNode *i = doc->children;
+    while (i)
+    {
+        xmlNode *next = i->next; // i might be freed in substitute_entity.
+        substitute_entity(doc, i, entity, only_chars);
+        i = next;
+    }
+}
+
 bool cmd_substitute(XMQCliCommand *command)
 {
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(command->env->doc);
-    xmlNodePtr root = xmlDocGetRootElement(doc);
-
-    while (root->prev) root = root->prev;
-    assert(root != NULL);
 
     if (command->cmd == XMQ_CLI_CMD_SUBSTITUTE_ENTITY)
     {
         verbose_("xmq=", "substituting entity %s", command->entity);
 
-        substitute_entity(doc, root, command->entity, false);
+        substitute_entities(doc, command->entity, false);
     }
     if (command->cmd == XMQ_CLI_CMD_SUBSTITUTE_CHAR_ENTITIES)
     {
         verbose_("xmq=", "substituting all char entities");
 
-        substitute_entity(doc, root, NULL, true);
+        substitute_entities(doc, NULL, true);
     }
 
     return true;
-- 
2.43.0


From d8935f6149503d0fc19a1a2192cd916cb3cf5905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 09/63] fix: delete-entity does not swallow the next command

---
 src/main/c/xmq-cli.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 1e37806..97e8794 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1034,7 +1034,8 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
             return true;
         }
 
-        if (group == XMQ_CLI_CMD_GROUP_ENTITY && command->content == NULL && command->node_content == NULL)
+        // Only replace-entity has content, delete-entity is followed by the next command.
+        if (command->cmd == XMQ_CLI_CMD_REPLACE_ENTITY && command->content == NULL && command->node_content == NULL)
         {
             command->content = arg;
             return true;
-- 
2.43.0


From 52d7ea0b09cf896984b96c795c20410173b54320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 10/63] fix: quote-c and unquote-c of a document without text
 content do not crash

---
 src/main/c/xmq-cli.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 97e8794..88af98a 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2107,6 +2107,7 @@ bool cmd_quote_unquote(XMQCliCommand *command)
     if (command->cmd == XMQ_CLI_CMD_QUOTE_C)
     {
         char *value = (char*)xmlNodeListGetString(doc, doc->children, 1);
+        if (!value) value = (char*)xmlStrdup((const xmlChar*)""); // No text content.
         char *quoted_value = xmq_quote_as_c(value, value+strlen(value), true);
         xmlFree(value);
 
@@ -2135,6 +2136,7 @@ bool cmd_quote_unquote(XMQCliCommand *command)
     if (command->cmd == XMQ_CLI_CMD_UNQUOTE_C)
     {
         char *value = (char*)xmlNodeListGetString(doc, doc->children, 1);
+        if (!value) value = (char*)xmlStrdup((const xmlChar*)""); // No text content.
         char *unquoted_value = xmq_unquote_as_c(value, value+strlen(value), true);
         xmlFree(value);
 
-- 
2.43.0


From 6a42d2712a11855665f6a63bce24f9963b05af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 11/63] fix: the xmq parser does not read beyond the end of its
 buffer

---
 src/main/c/parts/text.c          | 47 ++++++--------------------------
 src/main/c/parts/xmq_internals.c |  7 +++--
 src/main/c/parts/xmq_parser.c    | 46 +++++++++++++++++--------------
 src/main/c/xmq.c                 |  6 ++--
 4 files changed, 42 insertions(+), 64 deletions(-)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 68ae86f..ea92e5a 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -179,55 +179,24 @@ size_t num_utf8_bytes(char c)
 */
 size_t peek_utf8_char(const char *start, const char *stop, UTF8Char *uc)
 {
-    char a = *start;
-    size_t n = num_utf8_bytes(a);
+    memset(uc->bytes, 0, sizeof(uc->bytes));
 
-    if (n == 1)
-    {
-        uc->bytes[0] = a;
-        uc->bytes[1] = 0;
-        uc->bytes[2] = 0;
-        uc->bytes[3] = 0;
-        return 1;
-    }
-
-    char b = *(start+1);
-    if (n == 2)
-    {
-        uc->bytes[0] = a;
-        uc->bytes[1] = b;
-        uc->bytes[2] = 0;
-        uc->bytes[3] = 0;
-        return 2;
-    }
-
-    char c = *(start+2);
-    if (n == 3)
-    {
-        uc->bytes[0] = a;
-        uc->bytes[1] = b;
-        uc->bytes[2] = c;
-        uc->bytes[3] = 0;
-        return 3;
-    }
+    size_t n = num_utf8_bytes(*start);
 
-    char d = *(start+3);
-    if (n == 4)
+    for (size_t i = 0; i < n; ++i)
     {
-        uc->bytes[0] = a;
-        uc->bytes[1] = b;
-        uc->bytes[2] = c;
-        uc->bytes[3] = d;
-        return 4;
+        // The utf8 char is cut short by the end of the string.
+        if (stop ? start+i >= stop : (i > 0 && start[i] == 0)) return 0;
+        uc->bytes[i] = start[i];
     }
 
-    return 0;
+    return n;
 }
 
 /**
    utf8_char_to_codepoint_string: Decode an utf8 char and store as a string "U+123"
    @uc: The utf8 char to decode.
-   @buf: Store the codepoint string here must have space for 9 bytes, i.e. U+10FFFF and a NULL byte.
+   @buf: Store the codepoint string here must have space for 16 bytes, i.e. U+10FFFF and a NULL byte.
 */
 bool utf8_char_to_codepoint_string(UTF8Char *uc, char *buf)
 {
diff --git a/src/main/c/parts/xmq_internals.c b/src/main/c/parts/xmq_internals.c
index 2e7f78f..3c0a1f3 100644
--- a/src/main/c/parts/xmq_internals.c
+++ b/src/main/c/parts/xmq_internals.c
@@ -91,8 +91,9 @@ void generate_state_error_message(XMQParseState *state, XMQParseError error_nr,
         error_nr == XMQ_ERROR_JSON_INVALID_CHAR)
     {
         UTF8Char utf8_char;
-        peek_utf8_char(statei, stop, &utf8_char);
-        char utf8_codepoint[8];
+        memset(&utf8_char, 0, sizeof(utf8_char));
+        if (statei < stop) peek_utf8_char(statei, stop, &utf8_char);
+        char utf8_codepoint[16];
         utf8_char_to_codepoint_string(&utf8_char, utf8_codepoint);
 
         snprintf(buf, 32, " \"%s\" %s", utf8_char.bytes, utf8_codepoint);
@@ -134,6 +135,8 @@ void generate_state_error_message(XMQParseState *state, XMQParseError error_nr,
 
 size_t count_whitespace(const char *i, const char *stop)
 {
+    if (i >= stop) return 0;
+
     unsigned char c = *i;
     if (c == ' ' || c == '\n' || c == '\t' || c == '\r')
     {
diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 690807b..46ecd97 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -21,6 +21,13 @@ void eat_xmq_text_name(XMQParseState *state, const char **content_start, const c
 bool possibly_lost_content_after_equals(XMQParseState *state);
 bool possibly_need_more_quotes(XMQParseState *state);
 
+/** Peek at the char at the given offset from the parse position, return 0 at the end of the buffer. */
+static char peek_char(XMQParseState *state, size_t offset)
+{
+    if ((size_t)(state->buffer_stop - state->i) <= offset) return 0;
+    return *(state->i+offset);
+}
+
 size_t count_xmq_quotes(const char *i, const char *stop)
 {
     const char *start = i;
@@ -138,7 +145,6 @@ void eat_xmq_entity(XMQParseState *state)
     if (c == ';')
     {
         increment(c, 1, &i, &line, &col);
-        c = *i;
         expect_semicolon = false;
     }
     if (expect_semicolon)
@@ -419,7 +425,7 @@ size_t count_xmq_slashes(const char *i, const char *stop, bool *found_asterisk)
 
     while (i < stop && *i == '/') i++;
 
-    if (*i == '*') *found_asterisk = true;
+    if (i < stop && *i == '*') *found_asterisk = true;
     else *found_asterisk = false;
 
     return i-start;
@@ -427,8 +433,8 @@ size_t count_xmq_slashes(const char *i, const char *stop, bool *found_asterisk)
 
 bool is_xmq_text_value(const char *start, const char *stop)
 {
-    char c = *start;
-    char cc = *(start+1);
+    char c = start < stop ? *start : 0;
+    char cc = start+1 < stop ? *(start+1) : 0;
 
     if (unsafe_value_start(c, cc)) return false;
 
@@ -616,12 +622,12 @@ void parse_xmq_text_value(XMQParseState *state, Level level)
 
 void parse_xmq_value(XMQParseState *state, Level level)
 {
-    char c = *state->i;
+    char c = peek_char(state, 0);
 
     if (is_xml_whitespace(c))
     {
         parse_xmq_whitespace(state);
-        c = *state->i;
+        c = peek_char(state, 0);
     }
 
     if (is_xmq_quote_start(c))
@@ -638,7 +644,7 @@ void parse_xmq_value(XMQParseState *state, Level level)
     }
     else
     {
-        char cc = *(state->i+1);
+        char cc = peek_char(state, 1);
         if (unsafe_value_start(c, cc))
         {
             state->error_nr = XMQ_ERROR_VALUE_CANNOT_START_WITH;
@@ -709,8 +715,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
     }
 
 
-    c = *state->i;
-    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+    c = peek_char(state, 0);
+    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_char(state, 0); }
 
     if (c == '(')
     {
@@ -726,8 +732,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
 
         parse_xmq_attributes(state);
 
-        c = *state->i;
-        if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+        c = peek_char(state, 0);
+        if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_char(state, 0); }
         if (c != ')')
         {
             state->error_nr = XMQ_ERROR_ATTRIBUTES_NOT_CLOSED;
@@ -745,8 +751,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
         DO_CALLBACK(apar_right, state, start_line, start_col, parentheses_right_start, parentheses_right_stop, stop);
     }
 
-    c = *state->i;
-    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+    c = peek_char(state, 0);
+    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_char(state, 0); }
 
     if (c == '=')
     {
@@ -778,8 +784,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
         DO_CALLBACK(brace_left, state, start_line, start_col, start, stop, stop);
 
         parse_xmq(state);
-        c = *state->i;
-        if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+        c = peek_char(state, 0);
+        if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_char(state, 0); }
         if (c != '}')
         {
             state->error_nr = XMQ_ERROR_BODY_NOT_CLOSED;
@@ -891,8 +897,8 @@ void parse_xmq_attribute(XMQParseState *state)
         }
     }
 
-    c = *state->i;
-    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+    c = peek_char(state, 0);
+    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_char(state, 0); }
 
     if (c == '=')
     {
@@ -929,8 +935,8 @@ void parse_xmq_compound(XMQParseState *state, Level level)
 
     parse_xmq_compound_children(state, enter_compound_level(level));
 
-    char c = *state->i;
-    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+    char c = peek_char(state, 0);
+    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_char(state, 0); }
 
     if (c != ')')
     {
@@ -969,7 +975,7 @@ void parse_xmq_compound_children(XMQParseState *state, Level level)
 
 bool possibly_lost_content_after_equals(XMQParseState *state)
 {
-    char c = *(state->i);
+    char c = peek_char(state, 0);
 
     // Look for unexpected = before 123 since beta was gobbled into being alfa:s value.
     // alfa = <newline>
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 0d6e41b..3ef7428 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1038,10 +1038,10 @@ const char *find_word_ignore_case(const char *start, const char *stop, const cha
     size_t len = strlen(word);
 
     while (i < stop && is_xml_whitespace(*i)) i++;
-    if (!strncasecmp(i, word, len))
+    if (i < stop && (size_t)(stop-i) >= len && !strncasecmp(i, word, len))
     {
         const char *next = i+len;
-        if (next <= stop && (is_xml_whitespace(*next) || *next == 0 || !isalnum(*next)))
+        if (next == stop || (is_xml_whitespace(*next) || *next == 0 || !isalnum(*next)))
         {
             // The word was properly terminated with a 0, or a whitespace or something not alpha numeric.
             return i+strlen(word);
@@ -1188,7 +1188,7 @@ bool find_line(const char *start, // Start scanning the line from here.
     {
         if (*i == '\n' || *i == '\r')
         {
-            if (*i == '\r' && *(i+1) == '\n') i++;
+            if (*i == '\r' && i+1 < stop && *(i+1) == '\n') i++;
             i++;
             has_nl = true;
             break;
-- 
2.43.0


From 6ffe60beca6e1d9e203683286ed13c6ffdfdaca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 12/63] fix: truncated json is a parse error and the json and
 ixml parsers do not read beyond their buffer

---
 src/main/c/parts/json.c          | 35 ++++++++++++++++++++++++++++++--
 src/main/c/parts/xmq_internals.h |  1 +
 src/main/c/xmq.c                 | 25 ++++++++++++++++++++---
 3 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index cf03fa3..b25ed24 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -100,7 +100,11 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
     size_t line = state->line;
     size_t col = state->col;
 
+    state->last_quote_start = i;
+    state->last_quote_start_line = line;
+    state->last_quote_start_col = col;
     increment('"', 1, &i, &line, &col);
+    bool closed = false;
 
     while (i < stop)
     {
@@ -108,6 +112,7 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
         if (c == '"')
         {
             increment(c, 1, &i, &line, &col);
+            closed = true;
             break;
         }
         if (c == '\\')
@@ -158,12 +163,19 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
                     }
                 }
             }
+            free_membuffer_and_free_content(buf);
             state->error_nr = XMQ_ERROR_JSON_INVALID_ESCAPE;
             longjmp(state->error_handler, 1);
         }
         membuffer_append_char(buf, c);
         increment(c, 1, &i, &line, &col);
     }
+    if (!closed)
+    {
+        free_membuffer_and_free_content(buf);
+        state->error_nr = XMQ_ERROR_QUOTE_NOT_CLOSED;
+        longjmp(state->error_handler, 1);
+    }
     // Add a zero termination to the string which is not used except for
     // guaranteeing that there is at least one allocated byte for empty strings.
     membuffer_append_null(buf);
@@ -750,6 +762,8 @@ bool xmq_tokenize_buffer_json(XMQParseState *state, const char *start, const cha
 
     if (state->parse->init) state->parse->init(state);
 
+    state->json_keys = stack_create();
+
     if (!setjmp(state->error_handler))
     {
         parse_json(state, NULL, NULL);
@@ -763,9 +777,15 @@ bool xmq_tokenize_buffer_json(XMQParseState *state, const char *start, const cha
     {
         XMQParseError error_nr = state->error_nr;
         generate_state_error_message(state, error_nr, start, stop);
+        while (state->json_keys->size > 0) free(stack_pop(state->json_keys));
+        stack_free(state->json_keys);
+        state->json_keys = NULL;
         return false;
     }
 
+    stack_free(state->json_keys);
+    state->json_keys = NULL;
+
     if (state->parse->done) state->parse->done(state);
     return true;
 }
@@ -828,7 +848,11 @@ void parse_json_array(XMQParseState *state, const char *key_start, const char *k
         if (c == ',') increment(c, 1, &state->i, &state->line, &state->col);
     }
 
-    assert(c == ']');
+    if (c != ']')
+    {
+        state->error_nr = XMQ_ERROR_JSON_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
     increment(c, 1, &state->i, &state->line, &state->col);
 
     DO_CALLBACK_SIM(brace_right, state, state->line, state->col, rightbrace, rightbrace+1, rightbrace+1);
@@ -1072,6 +1096,8 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
         char *new_key_start = NULL;
         char *new_key_stop = NULL;
         eat_json_quote(state, &new_key_start, &new_key_stop);
+        // Remember the key, in case of a parse error the longjmp skips the free below.
+        stack_push(state->json_keys, new_key_start);
 
         eat_xml_whitespace(state, NULL, NULL);
         c = *(state->i);
@@ -1087,6 +1113,7 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
         }
 
         parse_json(state, new_key_start, new_key_stop);
+        stack_pop(state->json_keys);
         free(new_key_start);
 
         c = *state->i;
@@ -1094,7 +1121,11 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
     }
     while (c == ',');
 
-    assert(c == '}');
+    if (c != '}')
+    {
+        state->error_nr = XMQ_ERROR_JSON_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
     increment(c, 1, &state->i, &state->line, &state->col);
 
     DO_CALLBACK_SIM(brace_right, state, state->line, state->col, rightbrace, rightbrace+1, rightbrace+1);
diff --git a/src/main/c/parts/xmq_internals.h b/src/main/c/parts/xmq_internals.h
index 0d168b2..7502386 100644
--- a/src/main/c/parts/xmq_internals.h
+++ b/src/main/c/parts/xmq_internals.h
@@ -321,6 +321,7 @@ struct XMQParseState
     const char *last_attr_start;
     size_t last_attr_start_line;
     size_t last_attr_start_col;
+    Stack *json_keys; // Allocated json keys whose values are being parsed.
     const char *last_quote_start;
     size_t last_quote_start_line;
     size_t last_quote_start_col;
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 3ef7428..779d415 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4273,6 +4273,15 @@ xmlDtdPtr parse_doctype_raw(XMQDoc *doq, const char *start, const char *stop)
     return dtd;
 }
 
+static char *copy_and_zero_terminate(const char *start, const char *stop)
+{
+    size_t len = stop-start;
+    char *buffer = (char*)malloc(len+1);
+    memcpy(buffer, start, len);
+    buffer[len] = 0;
+    return buffer;
+}
+
 bool xmq_parse_buffer_json(XMQDoc *doq,
                            const char *start,
                            const char *stop,
@@ -4298,8 +4307,12 @@ bool xmq_parse_buffer_json(XMQDoc *doq,
     state->element_last = NULL; // Will be set when the first node is created.
     // The doc root will be set when the first element node is created.
 
+    // The json parser relies on finding a zero after the last byte.
+    char *buffer = copy_and_zero_terminate(start, stop);
+
     // Time to tokenize the buffer and invoke the parse callbacks.
-    xmq_tokenize_buffer_json(state, start, stop);
+    xmq_tokenize_buffer_json(state, buffer, buffer+(stop-start));
+    free(buffer);
 
     if (xmqStateErrno(state))
     {
@@ -4343,15 +4356,21 @@ bool xmq_parse_buffer_ixml(XMQDoc *ixml_grammar,
     if (xmqDebugging()) run->debug = run->verbose = true;
     if (xmqTracing()) run->trace = run->debug = run->verbose = true;
 
+    // The ixml parser relies on finding a zero after the last byte.
+    char *buffer = copy_and_zero_terminate(start, stop);
+
     // Lets parse the ixml source to construct a yaep grammar.
     // This yaep grammar is cached in ixml_grammar->yaep_grammar_.
     ixml_build_yaep_grammar((YaepParseRun*)ixml_grammar->yaep_parse_run_,
                             (YaepGrammar*)ixml_grammar->yaep_grammar_,
                             state,
-                            start,
-                            stop,
+                            buffer,
+                            buffer+(stop-start),
                             NULL,
                             NULL);
+    free(buffer);
+    // The state outlives the buffer.
+    state->buffer_start = state->buffer_stop = state->i = NULL;
 
     if (xmqStateErrno(state))
     {
-- 
2.43.0


From 9b42ad4feafe85b74153d8bcbf700bae6b878262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 13/63] fix: invalid code points, failed transforms, unknown
 entities and broken ixml grammars are handled, not crashed on

---
 src/main/c/parts/ixml.c       | 43 +++++++++++++++++++++++------------
 src/main/c/parts/json.c       |  3 +++
 src/main/c/parts/text.c       |  5 ++++
 src/main/c/parts/text.h       |  2 ++
 src/main/c/parts/xml.c        | 29 +++++++++++++++--------
 src/main/c/parts/xmq_parser.c |  3 ++-
 src/main/c/xmq-cli.c          | 16 +++++++++----
 src/main/c/xmq.c              | 20 ++++++++++++----
 8 files changed, 87 insertions(+), 34 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index cb02efe..d70597b 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -772,6 +772,12 @@ void parse_ixml_encoded(XMQParseState *state, bool add_terminal)
 
     int value;
     parse_ixml_hex(state, &value);
+    if (value < 0 || value > 0x10ffff)
+    {
+        state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        state->error_info = "not a unicode code point";
+        longjmp(state->error_handler, 1);
+    }
     state->ixml_mark = tmark;
     state->ixml_encoded = value;
 
@@ -791,7 +797,13 @@ void parse_ixml_encoded(XMQParseState *state, bool add_terminal)
 void parse_ixml_factor(XMQParseState *state)
 {
     IXML_STEP(factor, state);
-    ASSERT(is_ixml_factor_start(state));
+
+    if (!is_ixml_factor_start(state))
+    {
+        state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        state->error_info = "expected factor";
+        longjmp(state->error_handler, 1);
+    }
 
     if (is_ixml_terminal_start(state))
     {
@@ -913,7 +925,8 @@ void parse_ixml_hex(XMQParseState *state, int *value)
     }
     const char *stop = state->i;
     char *hex = strndup(start, stop-start);
-    *value = (int)strtol(hex, NULL, 16);
+    long v = strtol(hex, NULL, 16);
+    *value = v > 0x10ffff ? -1 : (int)v; // Too large to be a code point.
     free(hex);
 
     IXML_DONE(hex, state);
@@ -990,7 +1003,12 @@ void parse_ixml_name(XMQParseState *state, const char **name_start, const char *
 {
     IXML_STEP(name,state);
 
-    assert(is_ixml_name_start(*(state->i)));
+    if (!is_ixml_name_start(*(state->i)))
+    {
+        state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        state->error_info = "expected name";
+        longjmp(state->error_handler, 1);
+    }
     *name_start = state->i;
     EAT(name_start, 1);
 
@@ -1300,18 +1318,8 @@ void parse_ixml_string(XMQParseState *state, int **content)
 void parse_ixml_term(XMQParseState *state)
 {
     IXML_STEP(term, state);
-    ASSERT(is_ixml_factor_start(state));
 
-    if (is_ixml_factor_start(state))
-    {
-        parse_ixml_factor(state);
-    }
-    else
-    {
-        state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
-        state->error_info = "expected factor";
-        longjmp(state->error_handler, 1);
-    }
+    parse_ixml_factor(state);
 
     char factor_mark = state->ixml_mark;
     char c = *(state->i);
@@ -1570,7 +1578,12 @@ void skip_comment(const char **i)
         j++;
         if (*j == '{') skip_comment(&j);
         if (*j == '}') break;
-        if (*j == 0) return;
+        if (*j == 0)
+        {
+            // Comment not closed, stop at the end of the buffer.
+            *i = j;
+            return;
+        }
     }
     j++;
     *i = j;
diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index b25ed24..6940c80 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -1260,6 +1260,9 @@ void json_print_attribute(XMQPrintState *ps, xmlAttr *a)
     if (a->children != NULL)
     {
         char *value = (char*)xmlNodeListGetString(a->doc, a->children, 1);
+        // An entity without known content is kept as a reference.
+        if (!value) value = (char*)xmlNodeListGetString(a->doc, a->children, 0);
+        if (!value) value = (char*)xmlStrdup((const xmlChar*)"");
         char *quoted_value = xmq_quote_as_c(value, value+strlen(value), true);
         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
         free(quoted_value);
diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index ea92e5a..41256a7 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -220,6 +220,11 @@ bool utf8_char_to_codepoint_string(UTF8Char *uc, char *buf)
 
    Return true if valid utf8 char.
 */
+bool is_unicode_char(long uc)
+{
+    return uc > 0 && uc <= 0x10ffff && !(uc >= 0xd800 && uc <= 0xdfff);
+}
+
 size_t encode_utf8(int uc, UTF8Char *utf8)
 {
     utf8->bytes[0] = 0;
diff --git a/src/main/c/parts/text.h b/src/main/c/parts/text.h
index d7eabf1..d1d6d09 100644
--- a/src/main/c/parts/text.h
+++ b/src/main/c/parts/text.h
@@ -42,6 +42,8 @@ typedef struct
 
 bool decode_utf8(const char *start, const char *stop, int *out_char, size_t *out_len);
 size_t encode_utf8(int uc, UTF8Char *utf8);
+// Can this code point be stored as a utf8 char in a document?
+bool is_unicode_char(long uc);
 const char *has_ending_nl_space(const char *start, const char *stop, size_t *only_newlines);
 const char *has_leading_space_nl(const char *start, const char *stop, size_t *only_newlines);
 bool has_leading_ending_quote(const char *start, const char *stop);
diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index db79aa9..f1fd4bc 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -256,11 +256,23 @@ char *xml_collapse_text(xmlNode *node)
         else
         {
             int uc = decode_entity_ref((const char *)i->name);
-            UTF8Char utf8;
-            size_t n = encode_utf8(uc, &utf8);
-            for (size_t j = 0; j < n; ++j)
+            if (uc == 0)
             {
-                *out++ = utf8.bytes[j];
+                // Not a character, keep the reference as it is written.
+                size_t l = strlen((const char *)i->name);
+                *out++ = '&';
+                memcpy(out, i->name, l);
+                out += l;
+                *out++ = ';';
+            }
+            else
+            {
+                UTF8Char utf8;
+                size_t n = encode_utf8(uc, &utf8);
+                for (size_t j = 0; j < n; ++j)
+                {
+                    *out++ = utf8.bytes[j];
+                }
             }
         }
         i = next;
@@ -279,11 +291,10 @@ int decode_entity_ref(const char *name)
     if (!strcmp(name, "quot")) return '"';
     if (!strcmp(name, "nbsp")) return 160;
     if (name[0] != '#') return 0;
-    if (name[1] == 'x') {
-        long v = strtol((const char*)name, NULL, 16);
-        return (int)v;
-    }
-    return atoi(name+1);
+    long v = name[1] == 'x' ? strtol(name+2, NULL, 16) : strtol(name+1, NULL, 10);
+    // Not a character that can be encoded.
+    if (!is_unicode_char(v)) return 0;
+    return (int)v;
 }
 
 void xml_add_root_child(xmlDoc *doc, xmlNode *node)
diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 46ecd97..a798f87 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -990,8 +990,9 @@ bool possibly_lost_content_after_equals(XMQParseState *state)
     // Not {(= then not lost content, probably.
     if (!(c == '{' || c == '(' || c == '=')) return false;
 
-    const char *i = state->i-1;
     const char *start = state->buffer_start;
+    if (state->i == start) return false;
+    const char *i = state->i-1;
 
     // Scan backwards for newline accepting only texts and xml whitespace.
     while (i > start && *i != '\n' && (is_xmq_text_name(*i) || is_xml_whitespace(*i))) i--;
diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 88af98a..18b448e 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2095,6 +2095,13 @@ bool cmd_transform(XMQCliCommand *command)
     xmqSetImplementationDoc(command->xslt_doq, NULL);
     xmqFreeDoc(command->xslt_doq);
     command->xslt = NULL;
+    command->xslt_doq = NULL;
+
+    if (!new_doc)
+    {
+        fprintf(stderr, "xmq: the transform failed\n");
+        return false;
+    }
 
     return true;
 }
@@ -2214,6 +2221,7 @@ bool cmd_delete(XMQCliCommand *command)
         return delete_entity(command);
     }
 
+    fprintf(stderr, "xmq: delete expects an xpath or an entity\n");
     return false;
 }
 
@@ -2463,7 +2471,7 @@ void accumulate_statistics(Stats *stats, xmlNode *node)
     else if (node->type == XML_DTD_NODE)
     {
         stats->has_doctype++;
-        stats->size_doctype += strlen((const char*)node->name);
+        if (node->name) stats->size_doctype += strlen((const char*)node->name);
         return;
     }
 }
@@ -2735,11 +2743,11 @@ void substitute_entity(xmlDoc *doc, xmlNode *node, const char *entity, bool only
     {
         if (entity == NULL || !strcmp((const char *)node->name, entity))
         {
-            if (node->name[0] == '#')
+            int uc = decode_entity_ref((const char *)node->name);
+            if (node->name[0] == '#' && uc != 0)
             {
                 char buf[5] = {};
                 char *out = buf;
-                int uc = decode_entity_ref((const char *)node->name);
                 UTF8Char utf8;
                 size_t n = encode_utf8(uc, &utf8);
                 for (size_t j = 0; j < n; ++j)
@@ -4059,7 +4067,7 @@ xmqDocDefaultLoaderFunc(const xmlChar * URI,
 
 // Invoked last when exiting. If some part of the output could not be delivered then
 // the exit status must say so.
-void check_stdout_delivered()
+static void check_stdout_delivered()
 {
     if (fflush(stdout) != 0 || ferror(stdout))
     {
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 779d415..a0b2cf1 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -218,7 +218,8 @@ void xmqSetupDefaultColors(XMQOutputSettings *os)
 
     if (os->only_style)
     {
-        printf("%s\n", theme->style.pre);
+        // Not every rendering has a style.
+        if (theme->style.pre) printf("%s\n", theme->style.pre);
         exit(0);
     }
 
@@ -1982,9 +1983,15 @@ xmlNodePtr create_entity(XMQParseState *state,
         {
             // Make inte text that will be merged.
             UTF8Char uni;
-            int uc = 0;
+            long uc = 0;
             if (tmp[2] == 'x') uc = strtol(tmp+3, NULL, 16);
             else uc = strtol(tmp+2, NULL, 10);
+            if (!is_unicode_char(uc))
+            {
+                free(tmp);
+                state->error_nr = XMQ_ERROR_INVALID_CHAR;
+                longjmp(state->error_handler, 1);
+            }
             size_t len = encode_utf8(uc, &uni);
             char buf[len+1];
             memcpy(buf, uni.bytes, len);
@@ -2362,7 +2369,7 @@ void update_namespace_href(XMQParseState *state,
     ns->href = (const xmlChar*)href;
     debug("xmq=", "update namespace prefix=%s with href=%s", ns->prefix, href);
 
-    if (start[0] == 0 && ns == state->default_namespace)
+    if (start == stop && ns == state->default_namespace)
     {
         xmlNodePtr element = (xmlNode*)state->element_stack->top->data;
         debug("xmq=", "remove default namespace in element %s", element->name);
@@ -2859,6 +2866,9 @@ void cline_print_attr(XMQPrintState *ps, xmlAttr *a)
     if (a->children != NULL)
     {
         char *value = (char*)xmlNodeListGetString(a->doc, a->children, 1);
+        // An entity without known content is kept as a reference.
+        if (!value) value = (char*)xmlNodeListGetString(a->doc, a->children, 0);
+        if (!value) value = (char*)xmlStrdup((const xmlChar*)"");
         char *quoted_value = xmq_quote_as_c(value, value+strlen(value), true);
         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
         free(quoted_value);
@@ -4423,7 +4433,7 @@ void handle_yaep_syntax_error(YaepParseRun *pr,
     if (start < 0) start = 0;
     int stop = err_tok_num + 20;
 
-    for (int i = start; i < stop && pr->buffer_start[i] != 0; ++i)
+    for (int i = start; i < stop && pr->buffer_start+i < pr->buffer_stop && pr->buffer_start[i] != 0; ++i)
     {
         printf("%c", pr->buffer_start[i]);
     }
@@ -4623,7 +4633,7 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
         state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
         state->error_info = "internal error, yaep did not accept generated yaep grammar";
         printf("xmq: could not parse input using ixml grammar: %s\n", yaep_error_message(xmq_get_yaep_grammar(ixml_grammar)));
-        longjmp(state->error_handler, 1);
+        return false;
     }
 
     yaep_set_one_parse_flag(xmq_get_yaep_grammar(ixml_grammar),
-- 
2.43.0


From b79adf3badf274a0d4ab798d9bf1d077953a4333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 14/63] fix: an object ending after a comma is a json error,
 not an endless loop, and trimming stays within the quote

---
 src/main/c/parts/json.c | 1 -
 src/main/c/xmq.c        | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 6940c80..5933b2d 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -1119,7 +1119,6 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
         c = *state->i;
         if (c == ',') increment(c, 1, &state->i, &state->line, &state->col);
     }
-    while (c == ',');
 
     if (c != '}')
     {
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index a0b2cf1..0d0937d 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1520,7 +1520,7 @@ char *xmq_trim_quote(size_t indent, char space, const char *start, const char *s
             // For all lines except the first. And for the first line if ignore_first_indent is true.
             // Skip the incidental indentation.
             size_t n = incidental;
-            while (n > 0)
+            while (n > 0 && i < after_last_non_space)
             {
                 char c = *i;
                 i++;
-- 
2.43.0


From f76003f2c13f05d57963fc732f13a0793763058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 15/63] fix: only elements have attributes and a tab between
 attributes is an error, not an endless loop

---
 src/main/c/parts/text.c       | 4 ++--
 src/main/c/parts/xml.c        | 3 +++
 src/main/c/parts/xmq_parser.c | 7 +++++++
 src/main/c/xmq.c              | 7 ++++---
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 41256a7..f2040fa 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -574,8 +574,8 @@ char *xmq_unquote_as_c(const char *start, const char *stop, bool remove_quotes)
 char *potentially_add_leading_ending_space(const char *start, const char *stop)
 {
     char *content = NULL;
-    int prefix = *start == '\'' ? 1 : 0;
-    int postfix = *(stop-1) == '\'' ? 1 : 0;
+    int prefix = start < stop && *start == '\'' ? 1 : 0;
+    int postfix = start < stop && *(stop-1) == '\'' ? 1 : 0;
     if (prefix || postfix)
     {
         size_t len = stop-start;
diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index f1fd4bc..125a7ba 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -33,6 +33,8 @@ xmlNode *xml_prev_sibling(xmlNode *node)
 
 xmlAttr *xml_first_attribute(xmlNode *node)
 {
+    // Only elements have attributes, the other nodes reuse or lack the field.
+    if (node->type != XML_ELEMENT_NODE) return NULL;
     return node->properties;
 }
 
@@ -48,6 +50,7 @@ xmlAttr *xml_get_attribute(xmlNode *node, const char *name)
 
 xmlNs *xml_first_namespace_def(xmlNode *node)
 {
+    if (node->type != XML_ELEMENT_NODE) return NULL;
     return node->nsDef;
 }
 
diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index a798f87..c9078af 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -1081,7 +1081,14 @@ void parse_xmq_whitespace(XMQParseState *state)
     size_t start_col = state->col;
     const char *start;
     const char *stop;
+    const char *before = state->i;
     eat_xmq_token_whitespace(state, &start, &stop);
+    if (state->i == before)
+    {
+        // No progress, a tab is not permitted here.
+        state->error_nr = XMQ_ERROR_UNEXPECTED_TAB;
+        longjmp(state->error_handler, 1);
+    }
     DO_CALLBACK(whitespace, state, start_line, start_col, start, stop, stop);
 }
 
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 0d0937d..9cc74d9 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2811,6 +2811,10 @@ void cline_print_node(XMQPrintState *ps, xmlNode *node)
         free(q);
         write(writer_state, "\n", NULL);
     }
+    else if (is_entity_node(node) || is_doctype_node(node))
+    {
+        // The children of these are declarations, not content.
+    }
     else if (node->children)
     {
         cline_print_nodes(ps, node->children);
@@ -2820,9 +2824,6 @@ void cline_print_node(XMQPrintState *ps, xmlNode *node)
         cline_print_xpath(ps, node);
         write(writer_state, "=\"\"\n", NULL);
     }
-    else if (is_entity_node(node))
-    {
-    }
 }
 
 void cline_print_nodes(XMQPrintState *ps, xmlNode *from)
-- 
2.43.0


From 65509882ea1c56933824f84a77383e377a9906c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 16/63] fix: the declaration of an entity is not treated as a
 child of its references, repeated empty literals in ixml

---
 src/main/c/parts/ixml.c | 8 ++++++--
 src/main/c/parts/xml.c  | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index d70597b..ca72053 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -809,11 +809,15 @@ void parse_ixml_factor(XMQParseState *state)
     {
         allocate_yaep_tmp_terminals(state);
 
+        // The empty string is a literal without any terminals, it is stored as an empty group
+        // to have a term that can be repeated.
+        bool literal = is_ixml_literal_start(state);
+
         parse_ixml_terminal(state);
 
-        if (has_ixml_tmp_terminals(state))
+        if (literal || has_ixml_tmp_terminals(state))
         {
-            if (has_more_than_one_ixml_tmp_terminals(state))
+            if (!has_ixml_tmp_terminals(state) || has_more_than_one_ixml_tmp_terminals(state))
             {
                 // Create a group.
                 IXMLNonTerminal *nt = new_ixml_nonterminal();
diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index 125a7ba..342d0d2 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -13,6 +13,8 @@
 
 xmlNode *xml_first_child(xmlNode *node)
 {
+    // The child of an entity reference is the declaration of the entity inside the dtd.
+    if (node->type == XML_ENTITY_REF_NODE) return NULL;
     return node->children;
 }
 
-- 
2.43.0


From 11eb6d7afb2c90c9c706e720e7b2a7e74776f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 17/63] fix: a document parsed with an ixml grammar can be read
 from stdin and a failed read is reported

---
 src/main/c/xmq-cli.c | 40 ++++++++++++----------------------------
 src/main/c/xmq.c     |  2 +-
 2 files changed, 13 insertions(+), 29 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 18b448e..3ec8de9 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -364,7 +364,6 @@ xmlDocPtr xmqDocDefaultLoaderFunc(const xmlChar * URI, xmlDictPtr dict, int opti
                                   xsltLoadType type /* ATTRIBUTE_UNUSED*/);
 
 char *load_file_into_buffer(const char *file);
-bool check_file_exists(const char *file);
 
 // TODO REMOVE...
 void xmq_set_yaep_grammar(XMQDoc *doc, YaepGrammar *g);
@@ -1839,30 +1838,22 @@ bool cmd_load(XMQCliCommand *command)
         if (command->ixml_all_parses) flags |= XMQ_FLAG_IXML_ALL_PARSES;
         if (command->ixml_try_to_recover) flags |= XMQ_FLAG_IXML_TRY_TO_RECOVER;
 
-        if (command->in)
+        if (command->in && command->in_is_content)
         {
-            if (command->in_is_content)
+            ok = xmqParseBufferWithIXML(command->env->doc, command->in, NULL, ixml_grammar, flags);
+            if (!ok)
             {
-                ok = xmqParseBufferWithIXML(command->env->doc, command->in, NULL, ixml_grammar, flags);
-                if (!ok)
-                {
-                    printf("xmq: could not parse: %s\n", command->in);
-                    exit(1);
-                }
+                printf("xmq: could not parse: %s\n", command->in);
+                exit(1);
             }
-            else
+        }
+        else
+        {
+            ok = xmqParseFileWithIXML(command->env->doc, command->in, ixml_grammar, flags);
+            if (!ok)
             {
-                ok = check_file_exists(command->in);
-                if (!ok)
-                {
-                    printf("xmq: could not read file %s\n", command->in);
-                    exit(1);
-                }
-                ok = xmqParseFileWithIXML(command->env->doc, command->in, ixml_grammar, flags);
-                if (!ok)
-                {
-                    exit(1);
-                }
+                print_load_error(command->env->doc, command->in);
+                exit(1);
             }
         }
 
@@ -4212,10 +4203,3 @@ char *load_file_into_buffer(const char *file)
     return buf;
 }
 
-bool check_file_exists(const char *file)
-{
-    FILE *f = fopen(file, "rb");
-    if (!f) return false;
-    fclose(f);
-    return true;
-}
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 9cc74d9..1ae5e1b 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4676,7 +4676,7 @@ bool xmqParseFileWithIXML(XMQDoc *doc, const char *file_name, XMQDoc *ixml_gramm
 {
     const char *buffer;
     size_t buffer_len = 0;
-    bool ok = load_file(doc, file_name, &buffer_len, &buffer);
+    bool ok = file_name ? load_file(doc, file_name, &buffer_len, &buffer) : load_stdin(doc, &buffer_len, &buffer);
 
     if (!ok) return false;
 
-- 
2.43.0


From b70c60929e8505936e88b51ee56c9394dd350e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 18/63] fix: tokenize reads standard input for - and the
 content given with -i

---
 src/main/c/xmq-cli.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 3ec8de9..109e042 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2863,6 +2863,8 @@ void prepare_command(XMQCliCommand *c, XMQCliCommand *load_command)
         return;
     case XMQ_CLI_CMD_TOKENIZE:
         c->in = load_command->in;
+        c->in_is_content = load_command->in_is_content;
+        if (c->in && !c->in_is_content && !strcmp(c->in, "-")) c->in = NULL; // Tokenize stdin.
         // Overwrite load command, do not load before tokenize.
         load_command->cmd = XMQ_CLI_CMD_NONE;
         return;
-- 
2.43.0


From 649706c99214e3308f90461e63d3fd22fe936eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 19/63] fix: any unicode character can be parsed with an ixml
 grammar and a bad range is an error, not an assertion

---
 src/main/c/parts/ixml.c    | 9 +++++++--
 src/main/c/parts/yaep.c    | 6 +++---
 src/main/c/yaep/src/yaep.c | 6 +++---
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index ca72053..08a9944 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -1156,8 +1156,13 @@ void parse_ixml_range(XMQParseState *state)
     }
     parse_ixml_whitespace(state);
 
-    // This is guaranteed by the is range test in the assert.
-    ASSERT(*(state->i) == '-');
+    // The is range test does not understand a mark before the from char.
+    if (*(state->i) != '-')
+    {
+        state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        state->error_info = "expected - between the chars of a range";
+        longjmp(state->error_handler, 1);
+    }
     EAT(range_minus, 1);
 
     parse_ixml_whitespace(state);
diff --git a/src/main/c/parts/yaep.c b/src/main/c/parts/yaep.c
index 562033b..82fc10e 100644
--- a/src/main/c/parts/yaep.c
+++ b/src/main/c/parts/yaep.c
@@ -2264,9 +2264,9 @@ typedef long int terminal_bitset_t;
 #define YAEP_MAX_ERROR_MESSAGE_LENGTH 200
 #endif
 
-/* As of Unicode 16 there are 155_063 allocated unicode code points.
-   Lets pick 200_000 as the max, it shrinks to max-min code point anyway.*/
-#define MAX_SYMB_CODE_TRANS_VECT_SIZE 200000
+/* The largest code that a four byte utf8 sequence can express is 0x1fffff,
+   unassigned and private code points included. It shrinks to max-min code point anyway.*/
+#define MAX_SYMB_CODE_TRANS_VECT_SIZE 0x200100
 
 /* The initial length of array(in tokens) in which input tokens are placed.*/
 #ifndef NUM_INITIAL_YAEP_INIT_TOKENS
diff --git a/src/main/c/yaep/src/yaep.c b/src/main/c/yaep/src/yaep.c
index 76e9f39..55b2f95 100644
--- a/src/main/c/yaep/src/yaep.c
+++ b/src/main/c/yaep/src/yaep.c
@@ -132,9 +132,9 @@ typedef long int terminal_bitset_t;
 #define YAEP_MAX_ERROR_MESSAGE_LENGTH 200
 #endif
 
-/* As of Unicode 16 there are 155_063 allocated unicode code points.
-   Lets pick 200_000 as the max, it shrinks to max-min code point anyway.*/
-#define MAX_SYMB_CODE_TRANS_VECT_SIZE 200000
+/* The largest code that a four byte utf8 sequence can express is 0x1fffff,
+   unassigned and private code points included. It shrinks to max-min code point anyway.*/
+#define MAX_SYMB_CODE_TRANS_VECT_SIZE 0x200100
 
 /* The initial length of array(in tokens) in which input tokens are placed.*/
 #ifndef NUM_INITIAL_YAEP_INIT_TOKENS
-- 
2.43.0


From b7be77263f161b1df09e3c5ba87cd6f6c640fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 20/63] fix: a file position that cannot be found out is a read
 error

---
 src/main/c/xmq-cli.c | 4 ++--
 src/main/c/xmq.c     | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 109e042..cba2f76 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -4169,8 +4169,8 @@ char *load_file_into_buffer(const char *file)
     }
     // The size is only known for files that can be seeked, a pipe has to be read until it ends.
     long sz = -1;
-    if (fseek(f, 0L, SEEK_END) == 0) sz = ftell(f);
-    bool ok = sz < 0 || fseek(f, 0L, SEEK_SET) == 0;
+    bool ok = true;
+    if (fseek(f, 0L, SEEK_END) == 0) ok = (sz = ftell(f)) >= 0 && fseek(f, 0L, SEEK_SET) == 0;
     char *buf = NULL;
     size_t n = 0, capacity = 0;
     while (ok)
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 1ae5e1b..8c9d9f2 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4162,8 +4162,7 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
     }
 
     // The size is only known for files that can be seeked, a pipe has to be read until it ends.
-    if (fseek(f, 0, SEEK_END) == 0) fsize = ftell(f);
-    if (fsize >= 0 && fseek(f, 0, SEEK_SET) != 0)
+    if (fseek(f, 0, SEEK_END) == 0 && ((fsize = ftell(f)) < 0 || fseek(f, 0, SEEK_SET) != 0))
     {
         doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
         doq->error_ = build_error_message("xmq: %s: Cannot read file\n", file);
-- 
2.43.0


From 11cc786460e6e2b8fa62ebf896475300b76a5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 21/63] fix: every output format can be printed to stdout or a
 writer, onlystyle goes where the output goes, and omit-decl omits exactly the
 declaration

---
 src/main/c/xmq.c | 68 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 8c9d9f2..c9cb672 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -215,14 +215,6 @@ void xmqSetupDefaultColors(XMQOutputSettings *os)
     {
         setup_tex_coloring(os, theme, dark_mode, os->use_color, os->render_raw);
     }
-
-    if (os->only_style)
-    {
-        // Not every rendering has a style.
-        if (theme->style.pre) printf("%s\n", theme->style.pre);
-        exit(0);
-    }
-
 }
 
 const char *add_color(XMQColorDef *colors, XMQColorName n, char **pp);
@@ -794,14 +786,9 @@ bool write_print_stdout(void *writer_state_ignored, const char *start, const cha
     if (!start) return true;
     if (!stop)
     {
-        fputs(start, stdout);
+        return fputs(start, stdout) >= 0;
     }
-    else
-    {
-        assert(stop > start);
-        fwrite(start, stop-start, 1, stdout);
-    }
-    return true;
+    return stop <= start || fwrite(start, stop-start, 1, stdout) == 1;
 }
 
 bool write_print_stderr(void *writer_state_ignored, const char *start, const char *stop)
@@ -2653,6 +2640,21 @@ void copy_quote_settings_from_output_settings(XMQQuoteSettings *qs, XMQOutputSet
     qs->compact = os->compact;
 }
 
+static void write_all(XMQOutputSettings *os, const char *start, const char *stop)
+{
+    if (start < stop) os->content.write(os->content.writer_state, start, stop);
+}
+
+// The number of bytes in the leading <?xml version="1.0" encoding="utf-8"?> and its newline.
+static size_t length_of_xml_decl(const char *start, const char *stop)
+{
+    if (!start || stop-start < 5 || strncmp(start, "<?xml", 5)) return 0;
+    const char *i = start;
+    while (i < stop && *i != '\n') i++;
+    if (i < stop) i++;
+    return i-start;
+}
+
 void xmq_print_xml(XMQDoc *doq, XMQOutputSettings *output_settings)
 {
     xmq_fixup_html_before_writeout(doq);
@@ -2664,11 +2666,20 @@ void xmq_print_xml(XMQDoc *doq, XMQOutputSettings *output_settings)
                         &size,
                         "utf-8");
 
-    membuffer_reuse(output_settings->output_buffer,
-                    (char*)buffer,
-                    size);
+    if (output_settings->output_buffer)
+    {
+        membuffer_reuse(output_settings->output_buffer,
+                        (char*)buffer,
+                        size);
+    }
+    else
+    {
+        size_t skip = output_settings->omit_decl ? length_of_xml_decl((char*)buffer, (char*)buffer+size) : 0;
+        write_all(output_settings, (char*)buffer+skip, (char*)buffer+size);
+        xmlFree(buffer);
+    }
 
-    debug("xmq=", "xmq_print_xml wrote %zu bytes", size);
+    debug("xmq=", "xmq_print_xml wrote %d bytes", size);
 }
 
 void xmq_print_html(XMQDoc *doq, XMQOutputSettings *output_settings)
@@ -2679,9 +2690,9 @@ void xmq_print_html(XMQDoc *doq, XMQOutputSettings *output_settings)
     {
         htmlDocContentDumpOutput(out, doq->docptr_.html, "utf8");
         const xmlChar *buffer = xmlBufferContent((xmlBuffer *)out->buffer);
-        MemBuffer *membuf = output_settings->output_buffer;
-        membuffer_append(membuf, (char*)buffer);
-        debug("xmq=", "xmq_print_html wrote %zu bytes", membuf->used_);
+        size_t len = strlen((const char*)buffer);
+        write_all(output_settings, (const char*)buffer, (const char*)buffer+len);
+        debug("xmq=", "xmq_print_html wrote %zu bytes", len);
         xmlOutputBufferClose(out);
     }
     /*
@@ -2930,7 +2941,16 @@ void xmq_print_xmq(XMQDoc *doq, XMQOutputSettings *os)
 
 void xmqPrint(XMQDoc *doq, XMQOutputSettings *output_settings)
 {
-    if (output_settings->output_format == XMQ_CONTENT_XML)
+    if (output_settings->only_style)
+    {
+        // Not every rendering has a style.
+        const char *style = output_settings->theme->style.pre;
+        XMQWrite write = output_settings->content.write;
+        void *writer_state = output_settings->content.writer_state;
+        if (style) write(writer_state, style, NULL);
+        if (style) write(writer_state, "\n", NULL);
+    }
+    else if (output_settings->output_format == XMQ_CONTENT_XML)
     {
         xmq_print_xml(doq, output_settings);
     }
@@ -2969,7 +2989,7 @@ void xmqPrint(XMQDoc *doq, XMQOutputSettings *output_settings)
             if (output_settings->output_format == XMQ_CONTENT_XML && output_settings->omit_decl)
             {
                 // Skip <?xml version="1.0" encoding="utf-8"?>\n
-                *output_settings->output_skip = 39;
+                *output_settings->output_skip = length_of_xml_decl(buffer, buffer+size);
             }
         }
     }
-- 
2.43.0


From 15e1ad548b6b9417a410aad91c40ae6bc101bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 22/63] fix: for-each reports a command that could not be
 started or waited for, and a failed start never lets a second xmq continue

---
 src/main/c/xmq-cli.c | 54 +++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index cba2f76..8276a22 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -334,7 +334,7 @@ bool has_debug(int argc, const char **argv);
 bool has_verbose(int argc, const char **argv);
 bool handle_global_option(const char *arg, XMQCliCommand *command);
 bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command);
-void invoke_shell(xmlNode *n, const char *cmd);
+bool invoke_shell(xmlNode *n, const char *cmd);
 void page(const char *start, const char *stop);
 bool browse(XMQCliCommand *c);
 void open_browser(const char *file);
@@ -2307,26 +2307,29 @@ bool cmd_for_each(XMQCliCommand *command)
     xmlNodeSetPtr nodes = objects->nodesetval;
     int size = (nodes) ? nodes->nodeNr : 0;
 
-    for(int i = 0; i < size; ++i)
+    bool ok = true;
+    for(int i = 0; ok && i < size; ++i)
     {
         assert(nodes->nodeTab[i]);
         xmlNode *n = nodes->nodeTab[i];
 
-        if (n)
+        // A matched namespace is not a node, xpath lets its next refer to the element.
+        if (n->type == XML_NAMESPACE_DECL) n = (xmlNode*)((xmlNs*)n)->next;
+
+        while (n && !is_element_node(n))
         {
-            while (n && !is_element_node(n))
-            {
-                // We found an attribute move to parent.
-                n = n->parent;
-            }
-            invoke_shell(n, command->content);
+            // We found an attribute move to parent.
+            n = n->parent;
         }
+        // The document itself was matched, or something outside of the root element.
+        if (!n) n = xmlDocGetRootElement(doc);
+        if (n) ok = invoke_shell(n, command->content);
     }
 
     xmlXPathFreeObject(objects);
     xmlXPathFreeContext(ctx);
 
-    return true;
+    return ok;
 }
 
 bool cmd_add(XMQCliCommand *command)
@@ -3416,8 +3419,9 @@ char *grab_content(xmlNode *n, const char *name)
 // (On some systems this is also declared in unistd.h)
 extern char **environ;
 
-void invoke_shell(xmlNode *n, const char *shell_command)
+bool invoke_shell(xmlNode *n, const char *shell_command)
 {
+    bool ok = true;
 #ifndef PLATFORM_WINAPI
     char *cmd = strdup(shell_command);
     char **argv = malloc(sizeof(char*)*4);
@@ -3476,22 +3480,35 @@ void invoke_shell(xmlNode *n, const char *shell_command)
 #else
         execve("/bin/sh", argv, env);
 #endif
-        perror("Execvp failed:");
-        //error_("(shell) invoking %s failed!\n", program.c_str());
+        perror("xmq: could not execute /bin/sh");
+        // Do not let a second copy of xmq continue and do not flush the output of the parent a second time.
+        _exit(127);
     } else {
+        pid_t rp = -1;
         if (pid == -1) {
-            perror("(shell) could not fork!\n");
+            perror("xmq: could not fork");
+        }
+        else {
+            debug_("shell=", "waiting for child %d to complete.", pid);
+            // Wait for the child to finish!
+            do rp = waitpid(pid, &status, 0); while (rp == -1 && errno == EINTR);
+            if (rp == -1) perror("xmq: could not wait for the shell command");
         }
-        debug_("shell=", "waiting for child %d to complete.", pid);
-        // Wait for the child to finish!
-        waitpid(pid, &status, 0);
-        if (WIFEXITED(status)) {
+        if (rp == -1) {
+            ok = false;
+        }
+        else if (WIFEXITED(status)) {
             // Child exited properly.
             int rc = WEXITSTATUS(status);
             debug_("shell=", "%s: return code %d\n", "/bin/sh", rc);
             if (rc != 0) {
                 verbose_("shell=", "%s exited with non-zero return code: %d\n", "/bin/sh", rc);
             }
+            if (rc == 127) {
+                // Either there is no shell or the shell could not find the command.
+                fprintf(stderr, "xmq: could not start: %s\n", shell_command);
+                ok = false;
+            }
         }
         free(argv);
         size_t n = 0;
@@ -3506,6 +3523,7 @@ void invoke_shell(xmlNode *n, const char *shell_command)
     }
     free(cmd);
 #endif
+    return ok;
 }
 
 void page(const char *start, const char *stop)
-- 
2.43.0


From 673bf9e40c183eac722e2d24498fc51788df8ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:24 +0000
Subject: [PATCH 23/63] fix: the terminal background query survives interrupted
 reads, a hang-up and an unknown terminal mode

---
 src/main/c/xmq-cli.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 8276a22..e03d4b9 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1190,26 +1190,30 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
 
 #ifndef PLATFORM_WINAPI
 struct termios orig_stdout_termios;
+bool found_orig_stdout_termios;
 #endif
 
 void disable_stdout_raw_input_mode()
 {
 #ifndef PLATFORM_WINAPI
-    tcsetattr(STDOUT_FILENO, TCSAFLUSH, &orig_stdout_termios);
+    int rc;
+    if (!found_orig_stdout_termios) return;
+    do rc = tcsetattr(STDOUT_FILENO, TCSAFLUSH, &orig_stdout_termios); while (rc == -1 && errno == EINTR);
 #endif
 }
 
 void enable_stdout_raw_input_mode()
 {
 #ifndef PLATFORM_WINAPI
-    tcgetattr(STDOUT_FILENO, &orig_stdout_termios);
+    found_orig_stdout_termios = tcgetattr(STDOUT_FILENO, &orig_stdout_termios) == 0;
+    if (!found_orig_stdout_termios) return;
     atexit(disable_stdout_raw_input_mode);
 
-    struct termios raw;
-    tcgetattr(STDOUT_FILENO, &raw);
+    struct termios raw = orig_stdout_termios;
     raw.c_lflag &= ~ECHO;
     raw.c_lflag &= ~ICANON;
-    tcsetattr(STDOUT_FILENO, TCSAFLUSH, &raw);
+    int rc;
+    do rc = tcsetattr(STDOUT_FILENO, TCSAFLUSH, &raw); while (rc == -1 && errno == EINTR);
 #endif
 }
 
@@ -1287,12 +1291,14 @@ bool query_xterm_bgcolor()
     {
         char c = 0;
         // Reading from stdout!
-        size_t n = read(STDOUT_FILENO, &c, sizeof(char));
+        ssize_t n = read(STDOUT_FILENO, &c, sizeof(char));
+        if (n == -1 && errno == EINTR) continue;
         if (n == -1)
         {
             fprintf(stderr, "xmq: error reading from stdout\n");
             break;
         }
+        if (n == 0) break; // The terminal is gone.
         if (c == 0x07) break;
         buf[i++] = c;
         if (i >= 24) break;
-- 
2.43.0


From 09f85fb40c2273c37c7b633b8f3bb0051a2c6b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:24 +0000
Subject: [PATCH 24/63] fix: the pager reaches every line, quits when the
 terminal is gone and restores the mode it found

---
 src/main/c/xmq-cli.c | 251 +++++++++++++++----------------------------
 1 file changed, 89 insertions(+), 162 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index e03d4b9..956b6b0 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -322,8 +322,11 @@ void disable_stdout_raw_input_mode();
 void enable_stdout_raw_input_mode();
 void enableAnsiColorsWindowsConsole();
 void enableRawStdinTerminal();
-const char *skip_ansi_backwards(const char *i, const char *start);
-size_t count_non_ansi_chars(const char *start, const char *stop);
+const char *skip_ansi(const char *i, const char *stop);
+bool starts_column(char c);
+const char *find_next_row(const char *i, const char *stop, int width);
+const char *find_row_before(const char *lo, const char *before, const char *stop, int width);
+void find_last_line(const char **line_offset, const char **in_line_offset, const char *start, const char *stop, int width);
 void find_next_page(const char **line_offset, const char **in_line_offset, const  char *start, const char *stop, int width, int height);
 void find_prev_page(const char **line_offset, const char **in_line_offset, const  char *start, const char *stop, int width, int height);
 void find_next_line(const char **line_offset, const char **in_line_offset, const  char *start, const char *stop, int width);
@@ -2918,102 +2921,52 @@ void prepare_command(XMQCliCommand *c, XMQCliCommand *load_command)
     }
 }
 
-size_t count_non_ansi_chars(const char *start, const char *stop)
+/** Skip any ansi escape sequences, like \033[38m, starting at i. */
+const char *skip_ansi(const char *i, const char *stop)
 {
-    const char *i = start;
-    size_t n = 0;
-
-    while (i < stop)
+    while (i < stop && *i == 27)
     {
-        if (*i == 27)
-        {
-            // Skip ansi escape sequence.
-            while (i < stop)
-            {
-                char c = *i++;
-                if (c == 'm') continue;
-            }
-        }
-        i++;
-        n++;
+        while (i < stop && *i != 'm') i++;
+        if (i < stop) i++;
     }
-
-    return n;
+    return i;
 }
 
-const char *skip_ansi_backwards(const char *i, const char *start)
+/** Does this byte start a new column? Not if it continues an utf8 char. */
+bool starts_column(char c)
 {
-    // An ansi escape looks like: \033[38m
-    if (*i != 'm') return i;
-    // Check that we have space to look for ansi. Minimum ansi: \033[0m which is 4 bytes.
-    if (i-4 < start) return i;
-    // Must be a digit before m.
-    if (!isdigit(*(i-1))) return i;
-
-    const char *org_i = i;
-    while (i > start)
-    {
-        char c = *i;
-        // Stop at [
-        if (c == '[') break;
-        // Abort if not digits nor ;
-        if (!isdigit(c) && c != ';') return org_i;
-        i--;
-    }
-    if (i <= start) return org_i;
-    i--;
-    if (i < start) return org_i;
-    if (*i != '\033') return org_i;
-    return i-1;
+    return (c & 0xc0) != 0x80;
 }
 
-void print_until_newline(const char *info, const char *i, const char *stop);
-
-void print_until_newline(const char *info, const char *i, const char *stop)
+/** A row is what fits in the width of the terminal, a long line is wrapped into several rows.
+    Find the start of the row after the row starting at i. Returns stop when there is no such row. */
+const char *find_next_row(const char *i, const char *stop, int width)
 {
-    const char *start = i;
-    while (i < stop && *i != '\n') i++;
-    size_t n = i-start;
-    fprintf(stderr, "%s >%.*s<\n", info, (int)n, start);
-}
-
-const char *skip_line_width_backwards(const char *lo, const char *ilo, const char *start, const char *stop, int width);
-
-const char *skip_line_width_backwards(const char *lo, const char *ilo, const char *start, const char *stop, int width)
-{
-    assert(width > 0);
-    const char *i = ilo;
-    while (i > start)
-    {
-        i = skip_ansi_backwards(i, start);
-        width--;
-        i--;
-        if (*i == '\n') return i+1; // This is an error....
-        if (i == lo) return i; // This is an error....
-        if (width == 0) return i; // Good, we skipped backwards in a wrapped line.
-    }
-    return start;
+    int col = 0;
+    for (;;)
+    {
+        i = skip_ansi(i, stop);
+        if (i >= stop) return stop;
+        if (*i == '\n') return i+1;
+        if (starts_column(*i))
+        {
+            if (col >= width) return i;
+            col++;
+        }
+        i++;
+    }
 }
 
-const char *find_prev_line_start(const char *lo, const char *ilo, const char *start, const char *stop);
-
-const char *find_prev_line_start(const char *lo, const char *ilo, const char *start, const char *stop)
+/** Find the start of the last row that starts before the position before. The line starts at lo. */
+const char *find_row_before(const char *lo, const char *before, const char *stop, int width)
 {
-    if (ilo > lo) return lo;
-    // *lo is the first character in the current line.
-    // *(lo-1) is the newline ending the previous line.
-    // *(lo-2) is the last character on the previous line.
-    // Start searching from the last character on the previous line.
-    const char *i = lo-2;
-    while (i > start)
-    {
-        if (*i == '\n')
-        {
-            return i+1;
-        }
-        i--;
+    const char *row = lo;
+    for (;;)
+    {
+        const char *next = find_next_row(row, stop, width);
+        if (next >= before) return row;
+        row = next;
     }
-    return start;
 }
 
 void find_prev_line(const char **line_offset,
@@ -3031,22 +2984,28 @@ void find_prev_line(const char **line_offset,
     const char *lo = *line_offset;
     const char *ilo = *in_line_offset;
 
-    const char *prev_lo = find_prev_line_start(lo, ilo, start, stop);
-    // Prev_lo is now lo or the line before.
-
-    // How far is it from the prev line start to the ilo?
-    int diff = count_non_ansi_chars(prev_lo, ilo);
-
-    if (diff > width)
+    if (ilo == lo)
     {
-        // We have a wrapped line move backwards the width within the line.
-        *line_offset = prev_lo;
-        *in_line_offset = skip_line_width_backwards(lo, ilo, start, stop, width);
-        return;
+        // Already at the first line?
+        if (lo == start) return;
+        // *(lo-1) is the newline ending the previous line. Move to the start of that line.
+        lo--;
+        while (lo > start && *(lo-1) != '\n') lo--;
     }
 
-    *line_offset = prev_lo;
-    *in_line_offset = prev_lo;
+    *line_offset = lo;
+    *in_line_offset = find_row_before(lo, ilo, stop, width);
+}
+
+/** Find the last row of the last line. */
+void find_last_line(const char **line_offset, const char **in_line_offset, const char *start, const char *stop, int width)
+{
+    const char *lo = stop;
+    if (lo > start) lo--; // Do not stop at the newline that ends the last line.
+    while (lo > start && *(lo-1) != '\n') lo--;
+
+    *line_offset = lo;
+    *in_line_offset = lo < stop ? find_row_before(lo, stop, stop, width) : lo;
 }
 
 void find_next_page(const char **line_offset, const char **in_line_offset, const  char *start, const char *stop, int width, int height)
@@ -3067,60 +3026,24 @@ void find_prev_page(const char **line_offset, const char **in_line_offset, const
 
 void find_next_line(const char **line_offset, const char **in_line_offset, const  char *start, const char *stop, int width)
 {
-    const char *lo = *line_offset;
-    const char *ilo = *in_line_offset;
-
-    // Lo and ilo might point to the same line starting point. This happens for non-wrapped lines.
-    // Lo and ilo might point to the same line starting point for wrapped long lines if we have not scrolled
-    // down into the line.
-    // Ilo might point to the start of the wrapped line lo when scrolled down a line or more into a wrapped long line.
-
-    // Lets find the next ilo if we move into the next wrapped line or lo+ilo if we exit the wrapped line.
-    const char *i = ilo;
-    int col = 0;
-    while (i < stop)
-    {
-        if (*i == 27)
-        {
-            // Skip ansi escape sequence.
-            while (i < stop)
-            {
-                char c = *i;
-                i++;
-                if (c == 'm') break;
-            }
-        }
-
-        if (*i == '\n')
-        {
-            // We found a newline. Nice, we have a new lo and ilo after the newline.
-            lo = ilo = i+1;
-            break;
-        }
-
-        col++;
-        if (col >= width)
-        {
-            // We reached a new wrapped line. Stop here.
-            ilo = i;
-            break;
-        }
-        i++;
-    }
+    // Ilo might point to the start of the line lo or to the start of one of its wrapped rows.
+    const char *next = find_next_row(*in_line_offset, stop, width);
 
-    // We reached end of buffer before we found a new line. Do nothing.
-    if (i >= stop) return;
+    // There is nothing more to show after the last row. Do nothing.
+    if (next >= stop) return;
 
-    *line_offset = lo;
-    *in_line_offset = ilo;
+    // Did we enter a new line or the next row of a wrapped line?
+    if (*(next-1) == '\n') *line_offset = next;
+    *in_line_offset = next;
 }
 
 int get_char()
 {
 #ifndef PLATFORM_WINAPI
     unsigned char c;
-    size_t n = read(STDOUT_FILENO, &c, sizeof(char));
-    if (n == -1) return -1;
+    ssize_t n;
+    do n = read(STDOUT_FILENO, &c, sizeof(char)); while (n == -1 && errno == EINTR);
+    if (n != 1) return -1; // The terminal is gone.
     return c;
 #else
     return _getch();
@@ -3548,9 +3471,14 @@ void page(const char *start, const char *stop)
     }
 #ifndef PLATFORM_WINAPI
     struct winsize max;
+    memset(&max, 0, sizeof(max));
     ioctl(STDOUT_FILENO, TIOCGWINSZ , &max);
     height = max.ws_row - 1;
     width = max.ws_col;
+    // The size is zero if the terminal does not know it.
+    if (max.ws_row < 1) height = 23;
+    if (height < 1) height = 1;
+    if (width < 1) width = 80;
 
 #else
     CONSOLE_SCREEN_BUFFER_INFO csbi;
@@ -3568,18 +3496,14 @@ void page(const char *start, const char *stop)
         MemBuffer *buffer = new_membuffer();
         row = col = 0;
         const char *i = line_offset;
-        for (; i < stop; ++i)
+        while (i < stop)
         {
             if (*i == 27)
             {
                 // Ansi escape sequence.
-                while (i < stop)
-                {
-                    char c = *i;
-                    membuffer_append_char(buffer, c);
-                    if (c == 'm') break;
-                    i++;
-                }
+                const char *end = skip_ansi(i, stop);
+                membuffer_append_region(buffer, i, end);
+                i = end;
                 continue;
             }
             // Only start counting rows and cols when we have passed the in_line_offset.
@@ -3594,21 +3518,19 @@ void page(const char *start, const char *stop)
                     col = 0;
                     if (row >= height) break;
                 }
-                else
+                else if (starts_column(*i))
                 {
-                    col++;
                     if (col >= width)
                     {
                         row++;
                         col = 0;
-                        if (row >= height) {
-                            membuffer_append_char(buffer, *i);
-                            break;
-                        }
+                        if (row >= height) break;
                     }
+                    col++;
                 }
             }
             membuffer_append_char(buffer, *i);
+            i++;
         }
         console_write(buffer->buffer_, buffer->buffer_+buffer->used_);
         printf("\033[0m\n:");
@@ -3641,10 +3563,11 @@ void page(const char *start, const char *stop)
         }
         else if (key == CHARACTER && c == '>')
         {
-            line_offset = in_line_offset = stop-100;
+            find_last_line(&line_offset, &in_line_offset, start, stop, width);
+            find_prev_page(&line_offset, &in_line_offset, start, stop, width, height-1);
         }
         else if (key == CHARACTER &&
-                 (c == 27 || c == 'q' || c == 'Q'))
+                 (c == 27 || c == 'q' || c == 'Q' || c == -1))
         {
             printf("\033[2K\r");
             break;
@@ -3945,6 +3868,7 @@ void restoreStdinTerminal()
 
 #else
 static struct termios old_terminal, new_terminal;
+static bool found_old_terminal;
 
 /**
   enableRawStdinTerminal:
@@ -3953,7 +3877,8 @@ static struct termios old_terminal, new_terminal;
 */
 void enableRawStdinTerminal()
 {
-    tcgetattr(STDOUT_FILENO, &old_terminal);
+    found_old_terminal = tcgetattr(STDOUT_FILENO, &old_terminal) == 0;
+    if (!found_old_terminal) return;
     new_terminal = old_terminal;
 
     new_terminal.c_lflag &= ~(ICANON);
@@ -3968,7 +3893,9 @@ void enableRawStdinTerminal()
 */
 void restoreStdinTerminal()
 {
-    tcsetattr(STDOUT_FILENO, TCSANOW, &old_terminal);
+    if (!found_old_terminal) return;
+    int rc;
+    do rc = tcsetattr(STDOUT_FILENO, TCSANOW, &old_terminal); while (rc == -1 && errno == EINTR);
 }
 
 #endif
-- 
2.43.0


From 677dba2d97c33bd3e417b0a2de42e5f907b138ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 25/63] fix: utf8 beyond the last unicode code point is broken
 utf8 and never indexes outside the ixml character table

---
 src/main/c/parts/text.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index f2040fa..619f4da 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -312,9 +312,11 @@ bool decode_utf8(const char *start, const char *stop, int *out_char, size_t *out
             unsigned char cc = *(start+1);
             unsigned char ccc = *(start+2);
             unsigned char cccc = *(start+3);
-            if (((cc & 0xc0) == 0x80) && ((ccc & 0xc0) == 0x80) && ((cccc & 0xc0) == 0x80))
+            int uc = ((c & 0x07) << 18) | ((cc & 0x3f) << 12) | ((ccc & 0x3f) << 6) | (cccc & 0x3f);
+            // The largest unicode code point is 0x10ffff.
+            if (((cc & 0xc0) == 0x80) && ((ccc & 0xc0) == 0x80) && ((cccc & 0xc0) == 0x80) && uc <= 0x10ffff)
             {
-                *out_char = ((c & 0x07) << 18) | ((cc & 0x3f) << 12) | ((ccc & 0x3f) << 6) | (cccc & 0x3f);
+                *out_char = uc;
                 *out_len = 4;
                 return true;
             }
-- 
2.43.0


From 7172cf9dfd007adbb77e98d922d2dcbd051a6452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 26/63] fix: input that an ixml grammar cannot parse is a load
 error, not a message on stdout and an empty document

---
 src/main/c/parts/ixml.c | 15 +++++---
 src/main/c/parts/ixml.h |  2 +-
 src/main/c/xmq-cli.c    |  2 +-
 src/main/c/xmq.c        | 76 ++++++++++++++++++++++++++++++++++-------
 4 files changed, 75 insertions(+), 20 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index 08a9944..f004c5e 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -1287,6 +1287,7 @@ void parse_ixml_string(XMQParseState *state, int **content)
         {
             state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
             state->error_info = "string not terminated";
+            free_membuffer_and_free_content(buf);
             longjmp(state->error_handler, 1);
         }
 
@@ -1309,8 +1310,10 @@ void parse_ixml_string(XMQParseState *state, int **content)
         bool ok = decode_utf8(state->i, state->buffer_stop, &uc, &len);
         if (!ok)
         {
-            fprintf(stderr, "xmq: broken utf8\n");
-            exit(1);
+            free_membuffer_and_free_content(buf);
+            state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
+            state->error_info = "broken utf8";
+            longjmp(state->error_handler, 1);
         }
         membuffer_append_int(buf, uc);
         EAT(string_inside, len);
@@ -1734,8 +1737,9 @@ void add_insertion_rule(XMQParseState *state, const char *content)
     add_yaep_term_to_rule(state, 0, NULL, nt);
 }
 
-void scan_content_fixup_charsets(XMQParseState *state, const char *start, const char *stop)
+bool scan_content_fixup_charsets(XMQParseState *state, const char *start, const char *stop)
 {
+    // Returns false if the content is not valid utf8.
     const char *i = start;
     // We allocate a byte for every possible unicode. Yes, a bit excessive, 1 megabyte. Can be fixed though.
     // 17*65536 = 0x11000 = 1 MB
@@ -1749,8 +1753,8 @@ void scan_content_fixup_charsets(XMQParseState *state, const char *start, const
         bool ok = decode_utf8(i, stop, &uc, &len);
         if (!ok)
         {
-            fprintf(stderr, "xmq: broken utf8\n");
-            exit(1);
+            free(used);
+            return false;
         }
         i += len;
 
@@ -1885,6 +1889,7 @@ void scan_content_fixup_charsets(XMQParseState *state, const char *start, const
     }
 
     free(used);
+    return true;
 }
 
 void add_yaep_tmp_terminals_to_rule(XMQParseState *state, IXMLRule *rule, char mark)
diff --git a/src/main/c/parts/ixml.h b/src/main/c/parts/ixml.h
index 14d3579..3ac1320 100644
--- a/src/main/c/parts/ixml.h
+++ b/src/main/c/parts/ixml.h
@@ -62,7 +62,7 @@ const char *ixml_to_yaep_read_rule(YaepParseRun *pr,
                                    char *mark,
                                    char **marks);
 
-void scan_content_fixup_charsets(XMQParseState *state, const char *start, const char *stop);
+bool scan_content_fixup_charsets(XMQParseState *state, const char *start, const char *stop);
 
 void ixml_print_grammar(XMQParseState *state);
 
diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 956b6b0..95028b4 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1852,7 +1852,7 @@ bool cmd_load(XMQCliCommand *command)
             ok = xmqParseBufferWithIXML(command->env->doc, command->in, NULL, ixml_grammar, flags);
             if (!ok)
             {
-                printf("xmq: could not parse: %s\n", command->in);
+                print_load_error(command->env->doc, "content");
                 exit(1);
             }
         }
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index c9cb672..988c058 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4447,19 +4447,43 @@ void handle_yaep_syntax_error(YaepParseRun *pr,
     int line = 0, col = 0;
     find_line_col(pr->buffer_start, pr->buffer_stop, err_tok_num, &line, &col);
 
-    // source.foo:2:26: syntax error
-    printf("ixml:%d:%d: syntax error\n", line, col);
     int start = err_tok_num - 20;
     if (start < 0) start = 0;
     int stop = err_tok_num + 20;
 
-    for (int i = start; i < stop && pr->buffer_start+i < pr->buffer_stop && pr->buffer_start[i] != 0; ++i)
+    MemBuffer *mb = new_membuffer();
+    char buf[64];
+    // ixml:2:26: syntax error
+    snprintf(buf, sizeof(buf), "ixml:%d:%d: syntax error\n", line, col);
+    membuffer_append(mb, buf);
+
+    // The token numbers count characters, not bytes.
+    const char *i = pr->buffer_start;
+    for (int n = 0; n < stop && i < pr->buffer_stop; ++n)
+    {
+        int uc = 0;
+        size_t len = 0;
+        if (!decode_utf8(i, pr->buffer_stop, &uc, &len)) break;
+        if (n >= start) membuffer_append_region(mb, i, i+len);
+        i += len;
+    }
+    membuffer_append(mb, "\n");
+    for (int n = start; n < err_tok_num; ++n) membuffer_append(mb, " ");
+    membuffer_append(mb, "^\n");
+    membuffer_append_null(mb);
+
+    XMQParseState *state = (XMQParseState*)pr->user_data;
+    char *msg = free_membuffer_but_return_trimmed_content(mb);
+    if (state->ixml_try_to_recover)
     {
-        printf("%c", pr->buffer_start[i]);
+        // The parse continues after this error.
+        fprintf(stderr, "%s", msg);
+        free(msg);
+        return;
     }
-    printf("\n");
-    for (int i = start; i < err_tok_num; ++i) printf (" ");
-    printf("^\n");
+    state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
+    free(state->generated_error_msg);
+    state->generated_error_msg = msg;
 }
 
 const char *node_yaep_type_to_string(YaepTreeNodeType t)
@@ -4623,9 +4647,8 @@ void generate_dom_from_yaep_node(xmlDocPtr doc, xmlNodePtr node, YaepTreeNode *n
     }
     else
     {
-        for (int i=0; i<depth; ++i) printf("    ");
-        printf("[%d] ", index);
-        printf("WOOT %s\n", node_yaep_type_to_string(n->type));
+        // Nothing to generate for nil nodes and for the nodes replacing the input skipped by the error recovery.
+        debug("xmq=", "skipping ixml node %s at depth %d index %d", node_yaep_type_to_string(n->type), depth, index);
     }
 }
 
@@ -4636,9 +4659,23 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
 
     XMQParseState *state = xmq_get_yaep_parse_state(ixml_grammar);
 
+    if (!state || ixml_grammar->errno_ != XMQ_ERROR_NONE)
+    {
+        doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        doc->error_ = build_error_message("xmq: no valid ixml grammar to parse with\n");
+        return false;
+    }
+    state->error_nr = XMQ_ERROR_NONE;
+    state->ixml_try_to_recover = (flags & XMQ_FLAG_IXML_TRY_TO_RECOVER) ? true : false;
+
     // Now add all character terminals in the content (not yead added ) to the grammar.
     // And rewrite charsets into rules with multiple choice shrunk the the actual usage of characters in the input.
-    scan_content_fixup_charsets(state, start, stop);
+    if (!scan_content_fixup_charsets(state, start, stop))
+    {
+        doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        doc->error_ = build_error_message("xmq: could not parse input using ixml grammar: broken utf8\n");
+        return false;
+    }
 
     ixml_print_grammar(state);
 
@@ -4652,7 +4689,9 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
     {
         state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
         state->error_info = "internal error, yaep did not accept generated yaep grammar";
-        printf("xmq: could not parse input using ixml grammar: %s\n", yaep_error_message(xmq_get_yaep_grammar(ixml_grammar)));
+        doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        doc->error_ = build_error_message("xmq: could not parse input using ixml grammar: %s\n",
+                                          yaep_error_message(xmq_get_yaep_grammar(ixml_grammar)));
         return false;
     }
 
@@ -4675,7 +4714,18 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
 
     if (rc)
     {
-        printf("xmq: could not parse input using ixml grammar: %s\n", yaep_error_message(xmq_get_yaep_grammar(ixml_grammar)));
+        doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        doc->error_ = build_error_message("xmq: could not parse input using ixml grammar: %s\n",
+                                          yaep_error_message(xmq_get_yaep_grammar(ixml_grammar)));
+        return false;
+    }
+
+    if (state->error_nr != XMQ_ERROR_NONE)
+    {
+        // The input does not match the grammar.
+        if (run->root) yaepFreeTree(run->root, NULL, NULL);
+        doc->errno_ = state->error_nr;
+        doc->error_ = build_error_message("%s", state->generated_error_msg);
         return false;
     }
 
-- 
2.43.0


From 1155efa0fddcb992fbfc75fe4df9532152d15689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 27/63] fix: ixml grammars in different threads do not share an
 error jump buffer and a long rule name does not overflow the yaep error
 message

---
 src/main/c/parts/yaep.c       | 48 +++++++++++++++--------------------
 src/main/c/yaep/src/hashtab.c | 13 +---------
 src/main/c/yaep/src/yaep.c    | 35 +++++++++++++------------
 3 files changed, 40 insertions(+), 56 deletions(-)

diff --git a/src/main/c/parts/yaep.c b/src/main/c/parts/yaep.c
index 82fc10e..a3999fa 100644
--- a/src/main/c/parts/yaep.c
+++ b/src/main/c/parts/yaep.c
@@ -1731,16 +1731,6 @@ expand_hash_table (hash_table_t htab)
   yaep_free (new_htab->alloc, new_htab);
 }
 
-/* The following variable is used for debugging. Its value is number
-   of all calls of `find_hash_table_entry' for all hash tables. */
-
-int all_searches = 0;
-
-/* The following variable is used for debugging. Its value is number
-   of collisions fixed for time of work with all hash tables. */
-
-int all_collisions = 0;
-
 /* This function searches for hash table entry which contains element
    equal to given value or empty entry in which given value can be
    placed (if the element with given value does not exist in the
@@ -1769,9 +1759,8 @@ find_hash_table_entry (hash_table_t htab,
   secondary_hash_value = 1 + hash_value % (htab->size - 2);
   hash_value %= htab->size;
   htab->searches++;
-  all_searches++;
   first_deleted_entry_ptr = NULL;
-  for (;; htab->collisions++, all_collisions++)
+  for (;; htab->collisions++)
     {
       entry_ptr = htab->entries + hash_value;
       if (*entry_ptr == EMPTY_ENTRY)
@@ -2356,6 +2345,10 @@ struct YaepGrammar
        corresponding to the last occurred error code.*/
     char error_message[YAEP_MAX_ERROR_MESSAGE_LENGTH + 1];
 
+    /* Jump buffer for processing errors. It belongs to the grammar since several grammars
+       can be in use, even in different threads, at the same time. */
+    jmp_buf error_longjump_buff;
+
     /* The grammar axiom is named $S. */
     YaepSymbol *axiom;
 
@@ -3046,11 +3039,6 @@ static void symbol_print(FILE* f, YaepSymbol *symb, bool code_p);
 static void yaep_error(YaepParseState *ps, int code, const char*format, ...);
 static int default_read_token(YaepParseRun *ps, void **attr);
 
-// Global variables /////////////////////////////////////////////////////
-
-/* Jump buffer for processing errors.*/
-jmp_buf error_longjump_buff;
-
 // Implementations ////////////////////////////////////////////////////////////////////
 
 static unsigned symb_repr_hash(hash_table_entry_t s)
@@ -4365,6 +4353,7 @@ static void free_state_sets(YaepParseState *ps)
     if (ps->state_sets != NULL)
     {
         yaep_free(ps->run.grammar->alloc, ps->state_sets);
+        ps->state_sets = NULL;
     }
 }
 
@@ -4743,16 +4732,19 @@ static void yaep_error(YaepParseState *ps, int code, const char*format, ...)
 
     ps->run.grammar->error_code = code;
     va_start(arguments, format);
-    vsprintf(ps->run.grammar->error_message, format, arguments);
+    vsnprintf(ps->run.grammar->error_message, sizeof(ps->run.grammar->error_message), format, arguments);
     va_end(arguments);
-    assert(strlen(ps->run.grammar->error_message) < YAEP_MAX_ERROR_MESSAGE_LENGTH);
-    longjmp(error_longjump_buff, code);
+    longjmp(ps->run.grammar->error_longjump_buff, code);
 }
 
 /* The following function processes allocation errors. */
-static void error_func_for_allocate(void *ps)
+static void error_func_for_allocate(void *g)
 {
-   yaep_error((YaepParseState*)ps, YAEP_NO_MEMORY, "no memory");
+    YaepGrammar *grammar = (YaepGrammar*)g;
+
+    grammar->error_code = YAEP_NO_MEMORY;
+    strcpy(grammar->error_message, "no memory");
+    longjmp(grammar->error_longjump_buff, YAEP_NO_MEMORY);
 }
 
 YaepGrammar *yaepNewGrammar()
@@ -4772,9 +4764,8 @@ YaepGrammar *yaepNewGrammar()
         return NULL;
     }
     grammar->alloc = allocator;
-    yaep_alloc_seterr(allocator, error_func_for_allocate,
-                      yaep_alloc_getuserptr(allocator));
-    if (setjmp(error_longjump_buff) != 0)
+    yaep_alloc_seterr(allocator, error_func_for_allocate, grammar);
+    if (setjmp(grammar->error_longjump_buff) != 0)
     {
         //yaepFreeGrammar(pr, grammar);
         assert(0);
@@ -5105,7 +5096,7 @@ int yaep_read_grammar(YaepParseRun *pr,
     YaepParseState *ps = (YaepParseState*)pr;
     assert(CHECK_PARSE_STATE_MAGIC(ps));
 
-    if ((code = setjmp(error_longjump_buff)) != 0)
+    if ((code = setjmp(g->error_longjump_buff)) != 0)
     {
         return code;
     }
@@ -7203,7 +7194,8 @@ int yaepParse(YaepParseRun *pr, YaepGrammar *g)
     bool *ambiguous_p = &ps->run.ambiguous_p;
 
     int code;
-    bool tok_init_p, parse_init_p;
+    // These are changed after the setjmp and read after the longjmp.
+    volatile bool tok_init_p, parse_init_p;
     int table_collisions, table_searches;
 
     /* Set up parse allocation*/
@@ -7227,7 +7219,7 @@ int yaepParse(YaepParseRun *pr, YaepGrammar *g)
 
     if (!ps->run.read_token) ps->run.read_token = default_read_token;
 
-    if ((code = setjmp(error_longjump_buff)) != 0)
+    if ((code = setjmp(g->error_longjump_buff)) != 0)
     {
         free_state_sets(ps);
         if (parse_init_p)
diff --git a/src/main/c/yaep/src/hashtab.c b/src/main/c/yaep/src/hashtab.c
index e61d23c..92fcaf6 100644
--- a/src/main/c/yaep/src/hashtab.c
+++ b/src/main/c/yaep/src/hashtab.c
@@ -170,16 +170,6 @@ expand_hash_table (hash_table_t htab)
   yaep_free (new_htab->alloc, new_htab);
 }
 
-/* The following variable is used for debugging. Its value is number
-   of all calls of `find_hash_table_entry' for all hash tables. */
-
-int all_searches = 0;
-
-/* The following variable is used for debugging. Its value is number
-   of collisions fixed for time of work with all hash tables. */
-
-int all_collisions = 0;
-
 /* This function searches for hash table entry which contains element
    equal to given value or empty entry in which given value can be
    placed (if the element with given value does not exist in the
@@ -208,9 +198,8 @@ find_hash_table_entry (hash_table_t htab,
   secondary_hash_value = 1 + hash_value % (htab->size - 2);
   hash_value %= htab->size;
   htab->searches++;
-  all_searches++;
   first_deleted_entry_ptr = NULL;
-  for (;; htab->collisions++, all_collisions++)
+  for (;; htab->collisions++)
     {
       entry_ptr = htab->entries + hash_value;
       if (*entry_ptr == EMPTY_ENTRY)
diff --git a/src/main/c/yaep/src/yaep.c b/src/main/c/yaep/src/yaep.c
index 55b2f95..1469268 100644
--- a/src/main/c/yaep/src/yaep.c
+++ b/src/main/c/yaep/src/yaep.c
@@ -224,6 +224,10 @@ struct YaepGrammar
        corresponding to the last occurred error code.*/
     char error_message[YAEP_MAX_ERROR_MESSAGE_LENGTH + 1];
 
+    /* Jump buffer for processing errors. It belongs to the grammar since several grammars
+       can be in use, even in different threads, at the same time. */
+    jmp_buf error_longjump_buff;
+
     /* The grammar axiom is named $S. */
     YaepSymbol *axiom;
 
@@ -914,11 +918,6 @@ static void symbol_print(FILE* f, YaepSymbol *symb, bool code_p);
 static void yaep_error(YaepParseState *ps, int code, const char*format, ...);
 static int default_read_token(YaepParseRun *ps, void **attr);
 
-// Global variables /////////////////////////////////////////////////////
-
-/* Jump buffer for processing errors.*/
-jmp_buf error_longjump_buff;
-
 // Implementations ////////////////////////////////////////////////////////////////////
 
 static unsigned symb_repr_hash(hash_table_entry_t s)
@@ -2233,6 +2232,7 @@ static void free_state_sets(YaepParseState *ps)
     if (ps->state_sets != NULL)
     {
         yaep_free(ps->run.grammar->alloc, ps->state_sets);
+        ps->state_sets = NULL;
     }
 }
 
@@ -2611,16 +2611,19 @@ static void yaep_error(YaepParseState *ps, int code, const char*format, ...)
 
     ps->run.grammar->error_code = code;
     va_start(arguments, format);
-    vsprintf(ps->run.grammar->error_message, format, arguments);
+    vsnprintf(ps->run.grammar->error_message, sizeof(ps->run.grammar->error_message), format, arguments);
     va_end(arguments);
-    assert(strlen(ps->run.grammar->error_message) < YAEP_MAX_ERROR_MESSAGE_LENGTH);
-    longjmp(error_longjump_buff, code);
+    longjmp(ps->run.grammar->error_longjump_buff, code);
 }
 
 /* The following function processes allocation errors. */
-static void error_func_for_allocate(void *ps)
+static void error_func_for_allocate(void *g)
 {
-   yaep_error((YaepParseState*)ps, YAEP_NO_MEMORY, "no memory");
+    YaepGrammar *grammar = (YaepGrammar*)g;
+
+    grammar->error_code = YAEP_NO_MEMORY;
+    strcpy(grammar->error_message, "no memory");
+    longjmp(grammar->error_longjump_buff, YAEP_NO_MEMORY);
 }
 
 YaepGrammar *yaepNewGrammar()
@@ -2640,9 +2643,8 @@ YaepGrammar *yaepNewGrammar()
         return NULL;
     }
     grammar->alloc = allocator;
-    yaep_alloc_seterr(allocator, error_func_for_allocate,
-                      yaep_alloc_getuserptr(allocator));
-    if (setjmp(error_longjump_buff) != 0)
+    yaep_alloc_seterr(allocator, error_func_for_allocate, grammar);
+    if (setjmp(grammar->error_longjump_buff) != 0)
     {
         //yaepFreeGrammar(pr, grammar);
         assert(0);
@@ -2973,7 +2975,7 @@ int yaep_read_grammar(YaepParseRun *pr,
     YaepParseState *ps = (YaepParseState*)pr;
     assert(CHECK_PARSE_STATE_MAGIC(ps));
 
-    if ((code = setjmp(error_longjump_buff)) != 0)
+    if ((code = setjmp(g->error_longjump_buff)) != 0)
     {
         return code;
     }
@@ -5071,7 +5073,8 @@ int yaepParse(YaepParseRun *pr, YaepGrammar *g)
     bool *ambiguous_p = &ps->run.ambiguous_p;
 
     int code;
-    bool tok_init_p, parse_init_p;
+    // These are changed after the setjmp and read after the longjmp.
+    volatile bool tok_init_p, parse_init_p;
     int table_collisions, table_searches;
 
     /* Set up parse allocation*/
@@ -5095,7 +5098,7 @@ int yaepParse(YaepParseRun *pr, YaepGrammar *g)
 
     if (!ps->run.read_token) ps->run.read_token = default_read_token;
 
-    if ((code = setjmp(error_longjump_buff)) != 0)
+    if ((code = setjmp(g->error_longjump_buff)) != 0)
     {
         free_state_sets(ps);
         if (parse_init_p)
-- 
2.43.0


From 61059d8f09451ee1b9cec0c89ddbb22f05248d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 28/63] fix: an ixml terminal without a mark has no mark
 instead of an uninitialised one

---
 src/main/c/parts/yaep.c    | 8 ++------
 src/main/c/yaep/src/yaep.c | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/main/c/parts/yaep.c b/src/main/c/parts/yaep.c
index a3999fa..77e1c7e 100644
--- a/src/main/c/parts/yaep.c
+++ b/src/main/c/parts/yaep.c
@@ -6795,12 +6795,8 @@ static YaepTreeNode *build_parse_tree(YaepParseState *ps, bool *ambiguous_p)
                            (*ps->run.parse_alloc)(sizeof(YaepTreeNode)));
                     node->type = YAEP_TERM;
                     node->val.terminal.code = symb->u.terminal.code;
-                    // IXML
-                    if (rule->marks && rule->marks[pos])
-                    {
-                        // Copy the mark from the rhs position on to the terminal.
-                        node->val.terminal.mark = rule->marks[pos];
-                    }
+                    // IXML Copy the mark from the rhs position on to the terminal.
+                    node->val.terminal.mark = rule->marks ? rule->marks[pos] : 0;
                     node->val.terminal.attr = ps->input[state_set_k].attr;
                     if (!ps->run.grammar->one_parse_p)
                         term_node_array[state_set_k] = node;
diff --git a/src/main/c/yaep/src/yaep.c b/src/main/c/yaep/src/yaep.c
index 1469268..2495f34 100644
--- a/src/main/c/yaep/src/yaep.c
+++ b/src/main/c/yaep/src/yaep.c
@@ -4674,12 +4674,8 @@ static YaepTreeNode *build_parse_tree(YaepParseState *ps, bool *ambiguous_p)
                            (*ps->run.parse_alloc)(sizeof(YaepTreeNode)));
                     node->type = YAEP_TERM;
                     node->val.terminal.code = symb->u.terminal.code;
-                    // IXML
-                    if (rule->marks && rule->marks[pos])
-                    {
-                        // Copy the mark from the rhs position on to the terminal.
-                        node->val.terminal.mark = rule->marks[pos];
-                    }
+                    // IXML Copy the mark from the rhs position on to the terminal.
+                    node->val.terminal.mark = rule->marks ? rule->marks[pos] : 0;
                     node->val.terminal.attr = ps->input[state_set_k].attr;
                     if (!ps->run.grammar->one_parse_p)
                         term_node_array[state_set_k] = node;
-- 
2.43.0


From c93b10f90ea37b4fa0b7bbb9c48a2a78bd207f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 29/63] fix: an ixml charset of any size gets its name without
 overflowing a fixed buffer

---
 src/main/c/parts/ixml.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index f004c5e..a365458 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -2050,43 +2050,43 @@ char *generate_rule_name(XMQParseState *state)
 
 char *generate_charset_terminal_name(IXMLCharset *cs, char mark)
 {
-    char *buf = (char*)malloc(1024);
-    buf[0] = 0;
+    MemBuffer *buf = new_membuffer();
 
-    if (cs->exclude) strcat(buf, "~");
-    strcat(buf, "[");
+    if (cs->exclude) membuffer_append(buf, "~");
+    membuffer_append(buf, "[");
     char m[2];
     m[0] = mark;
     m[1] = 0;
-    if (mark != 0 && mark != ' ') strcat(buf, m);
+    if (mark != 0 && mark != ' ') membuffer_append(buf, m);
 
     IXMLCharsetPart *i = cs->first;
     bool first = true;
 
     while (i)
     {
-        if (!first) { strcat(buf, ";"); } else { first = false; }
-        if (i->category[0]) strcat(buf, i->category);
+        if (!first) { membuffer_append(buf, ";"); } else { first = false; }
+        if (i->category[0]) membuffer_append(buf, i->category);
         else
         {
             if (i->from != i->to)
             {
                 char s[16];
                 snprintf(s, 16, "#%x-#%x", i->from, i->to);
-                strcat(buf, s);
+                membuffer_append(buf, s);
             }
             else
             {
                 char s[16];
                 snprintf(s, 16, "#%x", i->from);
-                strcat(buf, s);
+                membuffer_append(buf, s);
             }
         }
         i = i->next;
     }
 
-    strcat(buf, "]");
-    return buf;
+    membuffer_append(buf, "]");
+    membuffer_append_null(buf);
+    return free_membuffer_but_return_trimmed_content(buf);
 }
 
 void make_last_term_optional(XMQParseState *state)
-- 
2.43.0


From 5f06af04d7724f7ba25509689972e9cb0a92078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 30/63] fix: an ixml grammar parses any number of contents and
 a charset occurring twice is not an ambiguity

---
 src/main/c/parts/ixml.c          | 30 +++++++++++++++++++++++-------
 src/main/c/parts/xmq_internals.h |  2 ++
 src/main/c/xmq.c                 | 19 +++++++++++++++++++
 3 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index a365458..97188ce 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -1741,10 +1741,10 @@ bool scan_content_fixup_charsets(XMQParseState *state, const char *start, const
 {
     // Returns false if the content is not valid utf8.
     const char *i = start;
-    // We allocate a byte for every possible unicode. Yes, a bit excessive, 1 megabyte. Can be fixed though.
-    // 17*65536 = 0x11000 = 1 MB
-    char *used = (char*)malloc(0x110000);
-    memset(used, 0, 0x110000);
+    // We allocate an int for every possible unicode. Yes, a bit excessive, 4 megabyte. Can be fixed though.
+    // 17*65536 = 0x11000 = 1 Mi
+    // 0 = not used, 1 = used, otherwise used and last added as a rule to the charset with this number.
+    int *used = (int*)calloc(0x110000, sizeof(int));
 
     while (i < stop)
     {
@@ -1774,11 +1774,22 @@ bool scan_content_fixup_charsets(XMQParseState *state, const char *start, const
         }
     }
 
+    // Remove the rules added for any previously parsed content.
+    while (state->ixml_rules->size > state->ixml_num_grammar_rules)
+    {
+        free_ixml_rule((IXMLRule*)vector_pop_back(state->ixml_rules));
+    }
+
+    // The same charset can be used several times in the grammar, but needs only to be expanded once.
+    HashMap *expanded = hashmap_create(256);
+
     for (size_t i = 0; i < state->ixml_non_terminals->size; ++i)
     {
         IXMLNonTerminal *nt = (IXMLNonTerminal*)vector_element_at(state->ixml_non_terminals, i);
-        if (nt->charset)
+        if (nt->charset && !hashmap_get(expanded, nt->name))
         {
+            hashmap_put(expanded, nt->name, nt);
+            int number = (int)i+2;
             bool include = nt->name[0] != '~';
             char tmark = 0;
             if ((nt->name[0] == '[' && nt->name[1] == '-') ||
@@ -1799,8 +1810,10 @@ bool scan_content_fixup_charsets(XMQParseState *state, const char *start, const
                         // should be tested for.
                         for (int c = p->from; c <= p->to; ++c)
                         {
-                            if (c >= 0 && c <= 0x10ffff && used[c])
+                            if (c >= 0 && c <= 0x10ffff && used[c] && used[c] != number)
                             {
+                                // The parts of a charset can overlap.
+                                used[c] = number;
                                 add_single_char_rule(state, nt, c, '-', tmark);
                             }
                         }
@@ -1823,8 +1836,10 @@ bool scan_content_fixup_charsets(XMQParseState *state, const char *start, const
                             for (size_t i = 0; i < cat_len; ++i)
                             {
                                 int c = cat[i];
-                                if (c >= 0 && c <= 0x10ffff && used[c])
+                                if (c >= 0 && c <= 0x10ffff && used[c] && used[c] != number)
                                 {
+                                    // The parts of a charset can overlap.
+                                    used[c] = number;
                                     add_single_char_rule(state, nt, c, '-', tmark);
                                 }
                             }
@@ -1888,6 +1903,7 @@ bool scan_content_fixup_charsets(XMQParseState *state, const char *start, const
         }
     }
 
+    hashmap_free(expanded);
     free(used);
     return true;
 }
diff --git a/src/main/c/parts/xmq_internals.h b/src/main/c/parts/xmq_internals.h
index 7502386..ab65b68 100644
--- a/src/main/c/parts/xmq_internals.h
+++ b/src/main/c/parts/xmq_internals.h
@@ -343,6 +343,8 @@ struct XMQParseState
     Vector *ixml_non_terminals;
     // Store all rules here. The rule has a rule_name which is a non-terminal ref to itself.
     Vector *ixml_rules;
+    // The number of rules in the grammar itself, the rules after these belong to the content last parsed.
+    size_t ixml_num_grammar_rules;
     // Rule stack is pushed by groups (..), ?, *, **, + and ++.
     Stack  *ixml_rule_stack;
     // Generated rule counter. Starts at 0 and increments after each generated
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 988c058..c4989f9 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4399,6 +4399,7 @@ bool xmq_parse_buffer_ixml(XMQDoc *ixml_grammar,
                             NULL,
                             NULL);
     free(buffer);
+    state->ixml_num_grammar_rules = state->ixml_rules->size;
     // The state outlives the buffer.
     state->buffer_start = state->buffer_stop = state->i = NULL;
 
@@ -4679,6 +4680,24 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
 
     ixml_print_grammar(state);
 
+    if (xmq_get_yaep_parse_run(ixml_grammar)->buffer_start)
+    {
+        // The ixml grammar has already been used for a parse. Start over with a new yaep grammar.
+        YaepParseRun *prev = xmq_get_yaep_parse_run(ixml_grammar);
+        YaepGrammar *grammar = yaepNewGrammar();
+        YaepParseRun *run = yaepNewParseRun(grammar);
+        run->user_data = prev->user_data;
+        run->verbose = prev->verbose;
+        run->debug = prev->debug;
+        run->trace = prev->trace;
+        yaepFreeGrammar(prev, ixml_grammar->yaep_grammar_);
+        yaepFreeParseRun(prev);
+        ixml_grammar->yaep_grammar_ = grammar;
+        ixml_grammar->yaep_parse_run_ = run;
+    }
+    xmq_get_yaep_parse_run(ixml_grammar)->buffer_start = start;
+
+    state->yaep_j_ = 0;
     state->yaep_i_ = hashmap_iterate(state->ixml_terminals_map);
     int rc = yaep_read_grammar(xmq_get_yaep_parse_run(ixml_grammar),
                                xmq_get_yaep_grammar(ixml_grammar),
-- 
2.43.0


From 377f56ae8f9265e7b6e3b0143ea90d83e7ec9d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 31/63] fix: an ixml parse whose result is not one root
 element, or repeats an attribute, is an error and insertions count in
 attributes

---
 src/main/c/xmq.c | 60 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index c4989f9..93027f9 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4510,6 +4510,12 @@ void collect_text(YaepTreeNode *n, MemBuffer *mb)
     if (n->type == YAEP_ANODE)
     {
         YaepAbstractNode *an = &n->val.anode;
+        if (an->name != NULL && an->name[0] == '|' && an->name[1] == '+')
+        {
+            // An insertion, the content has been encoded in the rule name.
+            membuffer_append(mb, an->name+2);
+            return;
+        }
         for (int i=0; an->children[i] != NULL; ++i)
         {
             YaepTreeNode *nn = an->children[i];
@@ -4529,9 +4535,12 @@ void collect_text(YaepTreeNode *n, MemBuffer *mb)
         }
     }
     else
+    if (n->type == YAEP_ALT)
     {
-        assert(false);
+        // An ambiguous attribute value, there is only room for one of them.
+        collect_text(n->val.alt.node, mb);
     }
+    // Nothing to collect from nil nodes and nodes replacing the input skipped by the error recovery.
 }
 
 void generate_dom_from_yaep_node(xmlDocPtr doc, xmlNodePtr node, YaepTreeNode *n, int depth, int index)
@@ -4620,7 +4629,10 @@ void generate_dom_from_yaep_node(xmlDocPtr doc, xmlNodePtr node, YaepTreeNode *n
 
         while (alt && alt->type == YAEP_ALT)
         {
-            generate_dom_from_yaep_node(doc, new_node, alt->val.alt.node, depth+1, 0);
+            YaepTreeNode *an = alt->val.alt.node;
+            bool attr = an != NULL && an->type == YAEP_ANODE && an->val.anode.mark == '@';
+            // There is only room for one of the alternatives of an attribute.
+            if (!attr) generate_dom_from_yaep_node(doc, new_node, alt->val.alt.node, depth+1, 0);
             alt = alt->val.alt.next;
         }
     }
@@ -4653,6 +4665,23 @@ void generate_dom_from_yaep_node(xmlDocPtr doc, xmlNodePtr node, YaepTreeNode *n
     }
 }
 
+bool has_duplicate_attribute(xmlNodePtr node);
+
+bool has_duplicate_attribute(xmlNodePtr node)
+{
+    if (node->type != XML_ELEMENT_NODE) return false;
+
+    for (xmlAttrPtr a = node->properties; a; a = a->next)
+    {
+        if (xmlHasProp(node, a->name) != a) return true;
+    }
+    for (xmlNodePtr i = node->children; i; i = i->next)
+    {
+        if (has_duplicate_attribute(i)) return true;
+    }
+    return false;
+}
+
 bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XMQDoc *ixml_grammar, int flags)
 {
     if (!doc || !start || !ixml_grammar) return false;
@@ -4753,10 +4782,35 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
         fprintf(stderr, "ixml: Warning! The input can be parsed in multiple ways, ie it is ambiguous!\n");
     }
 
-    generate_dom_from_yaep_node(doc->docptr_.xml, NULL, run->root, 0, 0);
+    // The marks can give several, or no, nodes at the root, but only one fits in the document.
+    xmlNodePtr holder = xmlNewDocNode(doc->docptr_.xml, NULL, (xmlChar*)"ixml", NULL);
+    generate_dom_from_yaep_node(doc->docptr_.xml, holder, run->root, 0, 0);
 
     if (run->root) yaepFreeTree(run->root, NULL, NULL);
 
+    bool fits = holder->properties == NULL && holder->children == holder->last;
+    bool duplicate = has_duplicate_attribute(holder);
+    if (fits && !duplicate && holder->children)
+    {
+        xmlNodePtr root = holder->children;
+        xmlUnlinkNode(root);
+        xmlDocSetRootElement(doc->docptr_.xml, root);
+    }
+    xmlFreeNode(holder);
+
+    if (!fits)
+    {
+        doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        doc->error_ = build_error_message("xmq: parsing the input using the ixml grammar does not give a single root element\n");
+        return false;
+    }
+    if (duplicate)
+    {
+        doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        doc->error_ = build_error_message("xmq: parsing the input using the ixml grammar gives an element two attributes with the same name\n");
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From f5f4583ec5bcc63381b4bb127cfb92cc066dbb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 32/63] fix: output settings can be used for several prints to
 memory and a failed tokenize does not leak its buffer

---
 src/main/c/xmq.c | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 93027f9..45477e5 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -686,6 +686,9 @@ XMQOutputSettings *xmqNewOutputSettings()
     return os;
 }
 
+void free_output_buffer(XMQOutputSettings *os);
+void hand_out_output_buffer(XMQOutputSettings *os);
+
 void xmqFreeOutputSettings(XMQOutputSettings *os)
 {
     if (os->theme)
@@ -703,6 +706,7 @@ void xmqFreeOutputSettings(XMQOutputSettings *os)
         free(os->free_and_me);
         os->free_and_me = NULL;
     }
+    free_output_buffer(os);
     free(os);
 }
 
@@ -843,8 +847,32 @@ void xmqSetupPrintStdOutStdErr(XMQOutputSettings *ps)
     ps->error.write = write_print_stderr;
 }
 
+// Free an output buffer that has not been handed out.
+void free_output_buffer(XMQOutputSettings *os)
+{
+    if (os->output_buffer && os->output_buffer_start && os->output_buffer_stop)
+    {
+        free_membuffer_and_free_content(os->output_buffer);
+    }
+    os->output_buffer = NULL;
+}
+
+// Hand out the printed content to the caller and prepare the settings for another print.
+void hand_out_output_buffer(XMQOutputSettings *os)
+{
+    MemBuffer *mb = os->output_buffer;
+    os->output_buffer = NULL;
+    xmqSetupPrintMemory(os, os->output_buffer_start, os->output_buffer_stop);
+
+    size_t size = membuffer_used(mb);
+    char *buffer = free_membuffer_but_return_trimmed_content(mb);
+    *os->output_buffer_start = buffer;
+    *os->output_buffer_stop = buffer+size;
+}
+
 void xmqSetupPrintMemory(XMQOutputSettings *os, char **start, char **stop)
 {
+    free_output_buffer(os);
     os->output_buffer_start = start;
     os->output_buffer_stop = stop;
     os->output_buffer = new_membuffer();
@@ -963,10 +991,7 @@ bool xmqTokenizeBuffer(XMQParseState *state, const char *start, const char *stop
         output_settings->output_buffer_start &&
         output_settings->output_buffer_stop)
     {
-        size_t size = membuffer_used(output_settings->output_buffer);
-        char *buffer = free_membuffer_but_return_trimmed_content(output_settings->output_buffer);
-        *output_settings->output_buffer_start = buffer;
-        *output_settings->output_buffer_stop = buffer+size;
+        hand_out_output_buffer(output_settings);
     }
 
     return true;
@@ -2979,17 +3004,15 @@ void xmqPrint(XMQDoc *doq, XMQOutputSettings *output_settings)
         output_settings->output_buffer_start &&
         output_settings->output_buffer_stop)
     {
-        size_t size = membuffer_used(output_settings->output_buffer);
-        char *buffer = free_membuffer_but_return_trimmed_content(output_settings->output_buffer);
-        *output_settings->output_buffer_start = buffer;
-        *output_settings->output_buffer_stop = buffer+size;
+        hand_out_output_buffer(output_settings);
         if (output_settings->output_skip)
         {
             *output_settings->output_skip = 0;
             if (output_settings->output_format == XMQ_CONTENT_XML && output_settings->omit_decl)
             {
                 // Skip <?xml version="1.0" encoding="utf-8"?>\n
-                *output_settings->output_skip = length_of_xml_decl(buffer, buffer+size);
+                *output_settings->output_skip = length_of_xml_decl(*output_settings->output_buffer_start,
+                                                                   *output_settings->output_buffer_stop);
             }
         }
     }
-- 
2.43.0


From 23f315746e1df3355065dad47674c68610516eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 33/63] fix: no input at all on stdin still only checks the
 ixml grammar

---
 src/main/c/xmq-cli.c | 7 ++++++-
 src/main/c/xmq.c     | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 95028b4..700c4ef 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1862,7 +1862,12 @@ bool cmd_load(XMQCliCommand *command)
             if (!ok)
             {
                 print_load_error(command->env->doc, command->in);
-                exit(1);
+                // No content at all only checks the grammar itself: xmq --ixml=grammar.ixml < /dev/null
+                bool only_check_grammar =
+                    command->in == NULL &&
+                    xmqDocErrno(command->env->doc) == XMQ_ERROR_IXML_SYNTAX_ERROR &&
+                    xmqGetOriginalSize(command->env->doc) == 0;
+                if (!only_check_grammar) exit(1);
             }
         }
 
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 45477e5..361a3a4 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4718,6 +4718,7 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
         doc->error_ = build_error_message("xmq: no valid ixml grammar to parse with\n");
         return false;
     }
+    doc->original_size_ = stop-start;
     state->error_nr = XMQ_ERROR_NONE;
     state->ixml_try_to_recover = (flags & XMQ_FLAG_IXML_TRY_TO_RECOVER) ? true : false;
 
-- 
2.43.0


From 26d4a0f5e096b49b5e8bff69ecc395603b2bdfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 34/63] fix: let a printf argument list survive a retry with a
 larger buffer

A value of 1024 characters or more in xmqLinePrintf was formatted a second
time with an argument list that was already used up.
---
 src/main/c/xmq.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 361a3a4..f9a6206 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4914,7 +4914,10 @@ char *buf_vsnprintf(const char *format, va_list ap)
 
     for (;;)
     {
-        size_t n = vsnprintf(buf, buf_size, format, ap);
+        va_list aq;
+        va_copy(aq, ap);
+        size_t n = vsnprintf(buf, buf_size, format, aq);
+        va_end(aq);
         if (n < buf_size) break;
         buf_size *= 2;
         free(buf);
@@ -5003,7 +5006,11 @@ char *xmq_line_vprintf_hr(XMQLineConfig *lc, const char *element_name, va_list a
         const char *format = va_arg(ap, const char *);
         for (;;)
         {
-            size_t n = vsnprintf(buf, buf_size, format, ap);
+            // Use a copy to find out if the output fits, since printing uses up the arguments.
+            va_list aq;
+            va_copy(aq, ap);
+            size_t n = vsnprintf(buf, buf_size, format, aq);
+            va_end(aq);
 
             if (n < buf_size)
             {
@@ -5060,6 +5067,7 @@ char *xmq_line_vprintf_xmq(XMQLineConfig *lc, const char *element_name, va_list
         char *q = xmqCompactQuote(buf);
         free(buf);
         membuffer_append(mb, q);
+        free(q);
         membuffer_append_null(mb);
         return free_membuffer_but_return_trimmed_content(mb);
     }
@@ -5095,7 +5103,11 @@ char *xmq_line_vprintf_xmq(XMQLineConfig *lc, const char *element_name, va_list
         const char *format = va_arg(ap, const char *);
         for (;;)
         {
-            size_t n = vsnprintf(buf, buf_size, format, ap);
+            // Use a copy to find out if the output fits, since printing uses up the arguments.
+            va_list aq;
+            va_copy(aq, ap);
+            size_t n = vsnprintf(buf, buf_size, format, aq);
+            va_end(aq);
 
             if (n < buf_size)
             {
-- 
2.43.0


From 847c3969eee8c4fc316e000e76a2ca7665944aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 35/63] fix: free the style strings of the tex renderer and of
 an earlier color setup

---
 src/main/c/xmq.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index f9a6206..a22261b 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -190,6 +190,12 @@ void xmqSetupDefaultColors(XMQOutputSettings *os)
         }
     }
 
+    // The strings of an earlier setup are no longer used.
+    free(os->free_me);
+    os->free_me = NULL;
+    free(os->free_and_me);
+    os->free_and_me = NULL;
+
     verbose("xmq=", "use theme %s", os->render_theme);
     installDefaultThemeColors(theme);
 
@@ -524,6 +530,7 @@ void setup_tex_coloring(XMQOutputSettings *os, XMQTheme *theme, bool dark_mode,
         *p = 0;
 
         theme->style.pre = style_pre;
+        os->free_me = style_pre;
 
         theme->body.pre = "\n\\begin{document}\n";
         theme->body.post = "\n\\end{document}\n";
-- 
2.43.0


From c0e5c518239aacf1c990ba2cf373ae35cc61dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 36/63] fix: accept an encoded insertion and keep the alias of
 all alternatives in ixml

+#41 added a terminal to a rule that was not being built and aborted.
---
 src/main/c/parts/ixml.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index 97188ce..0afb69f 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -595,6 +595,7 @@ void parse_ixml_alts(XMQParseState *state)
         char mark = state->ixml_rule->mark;
         state->ixml_rule = new_ixml_rule();
         state->ixml_rule->rule_name->name = strdup(name->name);
+        if (name->alias) state->ixml_rule->rule_name->alias = strdup(name->alias);
         state->ixml_rule->mark = mark;
         vector_push_back(state->ixml_rules, state->ixml_rule);
     }
@@ -969,7 +970,8 @@ void parse_ixml_insertion(XMQParseState *state)
     }
     else if (is_ixml_encoded_start(state))
     {
-        parse_ixml_encoded(state, true);
+        // The inserted character is not a terminal to be parsed.
+        parse_ixml_encoded(state, false);
         UTF8Char c;
         encode_utf8(state->ixml_encoded, &c);
         add_insertion_rule(state, c.bytes);
-- 
2.43.0


From e0972865724587b3bfffd75c3e75629f4f9ad004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 37/63] fix: free what a repeated or failed parse leaves behind

Each parse starts with an empty document. A second parse into the same doc
leaked the first content, kept a dangling root pointer or asserted.
---
 src/main/c/parts/ixml.c          |   4 +
 src/main/c/parts/xmq_internals.h |   1 +
 src/main/c/xmq.c                 | 122 ++++++++++++++++++++++---------
 3 files changed, 94 insertions(+), 33 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index 0afb69f..c47339a 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -715,6 +715,7 @@ void parse_ixml_charset(XMQParseState *state)
     IXMLNonTerminal *nt = new_ixml_nonterminal();
     nt->name = generate_charset_terminal_name(state->ixml_charset, tmark);
     nt->charset = state->ixml_charset;
+    state->ixml_charset = NULL; // Now owned by the nonterminal.
     add_yaep_nonterminal(state, nt);
     add_yaep_term_to_rule(state, tmark, NULL, nt);
 }
@@ -855,6 +856,7 @@ void parse_ixml_factor(XMQParseState *state)
 
         add_yaep_nonterminal(state, state->ixml_nonterminal);
         add_yaep_term_to_rule(state, state->ixml_mark, NULL, state->ixml_nonterminal);
+        state->ixml_nonterminal = NULL; // Now owned by the list of nonterminals.
     }
     else  if (is_ixml_insertion_start(state))
     {
@@ -2007,6 +2009,8 @@ void free_ixml_nonterminal(IXMLNonTerminal *nt)
 {
     if (nt->name) free(nt->name);
     nt->name = NULL;
+    if (nt->alias) free(nt->alias);
+    nt->alias = NULL;
     if (nt->charset) free_ixml_charset(nt->charset);
     nt->charset = NULL;
     free(nt);
diff --git a/src/main/c/parts/xmq_internals.h b/src/main/c/parts/xmq_internals.h
index ab65b68..c8e55d2 100644
--- a/src/main/c/parts/xmq_internals.h
+++ b/src/main/c/parts/xmq_internals.h
@@ -239,6 +239,7 @@ struct IXMLCharset
     IXMLCharsetPart *last;
 };
 typedef struct IXMLCharset IXMLCharset;
+void free_ixml_charset(IXMLCharset *cs);
 
 struct IXMLTerminal
 {
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index a22261b..8cdc535 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -136,6 +136,9 @@ void write_safe_html(XMQWrite write, void *writer_state, const char *start, cons
 void write_safe_tex(XMQWrite write, void *writer_state, const char *start, const char *stop);
 bool xmqVerbose();
 void xmqSetupParseCallbacksNoop(XMQParseCallbacks *callbacks);
+void set_doc_error(XMQDoc *doq, const char *error);
+void free_doc_grammar(XMQDoc *doq);
+void start_with_empty_doc(XMQDoc *doq);
 bool xmq_parse_buffer_html(XMQDoc *doq, const char *start, const char *stop, int flags);
 bool xmq_parse_buffer_xml(XMQDoc *doq, const char *start, const char *stop, int flags);
 bool xmq_parse_buffer_text(XMQDoc *doq, const char *start, const char *stop, const char *implicit_root);
@@ -1715,10 +1718,40 @@ void xmqSetDocSourceName(XMQDoc *doq, const char *source_name)
     {
         char *buf = (char*)malloc(strlen(source_name)+1);
         strcpy(buf, source_name);
+        free((void*)doq->source_name_);
         doq->source_name_ = buf;
     }
 }
 
+// Give back the parsed ixml grammar, if there is one.
+void free_doc_grammar(XMQDoc *doq)
+{
+    if (!doq->yaep_grammar_) return;
+
+    yaepFreeGrammar (doq->yaep_parse_run_, doq->yaep_grammar_);
+    yaepFreeParseRun (doq->yaep_parse_run_);
+    xmqFreeParseState(doq->yaep_parse_state_);
+    doq->yaep_grammar_ = NULL;
+    doq->yaep_parse_run_ = NULL;
+    doq->yaep_parse_state_ = NULL;
+}
+
+// A parse starts with an empty document, drop what an earlier parse into the same doc left behind.
+void start_with_empty_doc(XMQDoc *doq)
+{
+    free_doc_grammar(doq);
+    if (doq->docptr_.xml) xmlFreeDoc(doq->docptr_.xml);
+    doq->docptr_.xml = xmlNewDoc((const xmlChar*)"1.0");
+    doq->root_.node = NULL;
+}
+
+// The doc owns the error message, a new message replaces the previous.
+void set_doc_error(XMQDoc *doq, const char *error)
+{
+    free((void*)doq->error_);
+    doq->error_ = error;
+}
+
 const char *xmqGetDocSourceName(XMQDoc *doq)
 {
     return doq->source_name_;
@@ -1781,6 +1814,23 @@ void xmqFreeParseState(XMQParseState *state)
     if (state->ixml_rule_stack) stack_free(state->ixml_rule_stack);
     state->ixml_rule_stack = NULL;
 
+    // A parse that failed might leave behind what it was building.
+    if (state->ixml_tmp_terminals) vector_free_and_values(state->ixml_tmp_terminals, (FreeFuncPtr)free_ixml_terminal);
+    state->ixml_tmp_terminals = NULL;
+
+    if (state->ixml_nonterminal) free_ixml_nonterminal(state->ixml_nonterminal);
+    state->ixml_nonterminal = NULL;
+
+    if (state->ixml_charset) free_ixml_charset(state->ixml_charset);
+    state->ixml_charset = NULL;
+
+    free((char*)state->pi_name);
+    state->pi_name = NULL;
+    free((char*)state->element_namespace);
+    state->element_namespace = NULL;
+    free((char*)state->attribute_namespace);
+    state->attribute_namespace = NULL;
+
     free(state);
 }
 
@@ -1805,15 +1855,7 @@ void xmqFreeDoc(XMQDoc *doq)
         xmlFreeDoc(doq->docptr_.xml);
         doq->docptr_.xml = NULL;
     }
-    if (doq->yaep_grammar_)
-    {
-        yaepFreeGrammar (doq->yaep_parse_run_, doq->yaep_grammar_);
-        yaepFreeParseRun (doq->yaep_parse_run_);
-        xmqFreeParseState(doq->yaep_parse_state_);
-        doq->yaep_grammar_ = NULL;
-        doq->yaep_parse_run_ = NULL;
-        doq->yaep_parse_state_ = NULL;
-    }
+    free_doc_grammar(doq);
 
     debug("xmq=", "freeing xmq doc");
     free(doq);
@@ -1852,6 +1894,7 @@ const char *skip_any_potential_bom(const char *start, const char *stop)
 bool xmqParseBuffer(XMQDoc *doq, const char *start, const char *stop, const char *implicit_root, int flags)
 {
     bool rc = true;
+    start_with_empty_doc(doq);
     XMQOutputSettings *output_settings = xmqNewOutputSettings();
     XMQParseCallbacks *parse = xmqNewParseCallbacks();
 
@@ -1878,7 +1921,7 @@ bool xmqParseBuffer(XMQDoc *doq, const char *start, const char *stop, const char
     {
         rc = false;
         doq->errno_ = xmqStateErrno(state);
-        doq->error_ = build_error_message("%s\n", xmqStateErrorMsg(state));
+        set_doc_error(doq, build_error_message("%s\n", xmqStateErrorMsg(state)));
     }
 
     xmqFreeParseState(state);
@@ -2168,8 +2211,10 @@ void do_element_value_quote(XMQParseState *state,
         memcpy(buf+10+tn, "><foo></foo>", 12);
         buf[n-1] = 0;
         xmlDtdPtr dtd = parse_doctype_raw(state->doq, buf, buf+n-1);
+        free(buf);
         if (!dtd)
         {
+            free(trimmed);
             state->error_nr = XMQ_ERROR_BAD_DOCTYPE;
             longjmp(state->error_handler, 1);
         }
@@ -2187,7 +2232,6 @@ void do_element_value_quote(XMQParseState *state,
         }
         state->parsing_doctype = false;
         state->doctype_found = true;
-        free(buf);
     }
     else
     {
@@ -2385,6 +2429,7 @@ void update_namespace_href(XMQParseState *state,
     if (!stop) stop = start+strlen(start);
 
     char *href = strndup(start, stop-start);
+    if (ns->href) xmlFree((xmlChar*)ns->href);
     ns->href = (const xmlChar*)href;
     debug("xmq=", "update namespace prefix=%s with href=%s", ns->prefix, href);
 
@@ -2479,6 +2524,7 @@ void create_node(XMQParseState *state, const char *start, const char *stop)
     else if (name[0] == '?')
     {
         state->parsing_pi = true;
+        free((char*)state->pi_name);
         state->pi_name = strdup(name+1); // Drop the ?
     }
     else
@@ -3947,6 +3993,8 @@ bool xmq_parse_buffer_xml(XMQDoc *doq, const char *start, const char *stop, int
     /* Macro to check API for match with the DLL we are using */
     LIBXML_TEST_VERSION ;
 
+    start_with_empty_doc(doq);
+
     int parse_options = XML_PARSE_NOCDATA | XML_PARSE_NONET;
     bool should_trim = false;
     if (flags & XMQ_FLAG_TRIM_HEURISTIC ||
@@ -3960,7 +4008,7 @@ bool xmq_parse_buffer_xml(XMQDoc *doq, const char *start, const char *stop, int
     {
         doq->errno_ = XMQ_ERROR_PARSING_XML;
         // Let libxml2 print the error message.
-        doq->error_ = NULL;
+        set_doc_error(doq, NULL);
         return false;
     }
 
@@ -3984,6 +4032,8 @@ bool xmq_parse_buffer_html(XMQDoc *doq, const char *start, const char *stop, int
     /* Macro to check API for match with the DLL we are using */
     LIBXML_TEST_VERSION
 
+    start_with_empty_doc(doq);
+
     int parse_options = HTML_PARSE_NOERROR | HTML_PARSE_NOWARNING | HTML_PARSE_NONET;
 
     bool should_trim = false;
@@ -3999,7 +4049,7 @@ bool xmq_parse_buffer_html(XMQDoc *doq, const char *start, const char *stop, int
     {
         doq->errno_ = XMQ_ERROR_PARSING_HTML;
         // Let libxml2 print the error message.
-        doq->error_ = NULL;
+        set_doc_error(doq, NULL);
         return false;
     }
 
@@ -4025,6 +4075,7 @@ bool xmq_parse_buffer_html(XMQDoc *doq, const char *start, const char *stop, int
 
 bool xmq_parse_buffer_text(XMQDoc *doq, const char *start, const char *stop, const char *implicit_root)
 {
+    start_with_empty_doc(doq);
     char *buffer = strndup(start, stop-start);
     xmlNodePtr text = xmlNewDocText(doq->docptr_.xml, (xmlChar*)buffer);
     free(buffer);
@@ -4061,6 +4112,7 @@ bool xmq_prepare_node(const char *start, const char *stop)
 
 bool xmq_parse_buffer_clines(XMQDoc *doq, const char *start, const char *stop)
 {
+    start_with_empty_doc(doq);
     char *buffer = strndup(start, stop-start);
     xmlNodePtr text = xmlNewDocText(doq->docptr_.xml, (xmlChar*)buffer);
     free(buffer);
@@ -4175,7 +4227,7 @@ bool load_stdin(XMQDoc *doq, size_t *out_fsize, const char **out_buffer)
                 continue;
             }
             doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
-            doq->error_ = build_error_message("xmq: Could not read stdin errno=%d\n", errno);
+            set_doc_error(doq, build_error_message("xmq: Could not read stdin errno=%d\n", errno));
             close(fd);
             free_membuffer_and_free_content(mb);
 
@@ -4207,7 +4259,7 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
     FILE *f = fopen(file, "rb");
     if (!f) {
         doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
-        doq->error_ = build_error_message("xmq: %s: No such file or directory\n", file);
+        set_doc_error(doq, build_error_message("xmq: %s: No such file or directory\n", file));
         return false;
     }
 
@@ -4215,7 +4267,7 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
     if (fseek(f, 0, SEEK_END) == 0 && ((fsize = ftell(f)) < 0 || fseek(f, 0, SEEK_SET) != 0))
     {
         doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
-        doq->error_ = build_error_message("xmq: %s: Cannot read file\n", file);
+        set_doc_error(doq, build_error_message("xmq: %s: Cannot read file\n", file));
         goto exit;
     }
 
@@ -4232,7 +4284,7 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
             if (!tmp)
             {
                 doq->errno_ = XMQ_ERROR_OOM;
-                doq->error_ = build_error_message("xmq: %s: File too big, out of memory\n", file);
+                set_doc_error(doq, build_error_message("xmq: %s: File too big, out of memory\n", file));
                 goto exit;
             }
             buffer = tmp;
@@ -4254,7 +4306,7 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
 
     if (ferror(f) || (fsize >= 0 && n < (size_t)fsize)) {
         doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
-        doq->error_ = build_error_message("xmq: %s: Cannot read file\n", file);
+        set_doc_error(doq, build_error_message("xmq: %s: Cannot read file\n", file));
         goto exit;
     }
     buffer[n] = 0;
@@ -4324,6 +4376,7 @@ xmlDtdPtr parse_doctype_raw(XMQDoc *doq, const char *start, const char *stop)
     xmlFreeParserCtxt(ctxt);
 
     if (!rc) {
+        if (doc) xmlFreeDoc(doc);
         return NULL;
     }
 
@@ -4348,6 +4401,7 @@ bool xmq_parse_buffer_json(XMQDoc *doq,
                            const char *implicit_root)
 {
     bool rc = true;
+    start_with_empty_doc(doq);
     XMQOutputSettings *os = xmqNewOutputSettings();
     XMQParseCallbacks *parse = xmqNewParseCallbacks();
 
@@ -4378,7 +4432,7 @@ bool xmq_parse_buffer_json(XMQDoc *doq,
     {
         rc = false;
         doq->errno_ = xmqStateErrno(state);
-        doq->error_ = build_error_message("%s\n", xmqStateErrorMsg(state));
+        set_doc_error(doq, build_error_message("%s\n", xmqStateErrorMsg(state)));
     }
 
     xmqFreeParseState(state);
@@ -4393,9 +4447,8 @@ bool xmq_parse_buffer_ixml(XMQDoc *ixml_grammar,
                            const char *stop,
                            int flags)
 {
-    assert(ixml_grammar->yaep_grammar_ == NULL);
-
     bool rc = true;
+    start_with_empty_doc(ixml_grammar);
     if (!stop) stop = start+strlen(start);
 
     XMQOutputSettings *os = xmqNewOutputSettings();
@@ -4437,7 +4490,7 @@ bool xmq_parse_buffer_ixml(XMQDoc *ixml_grammar,
     {
         rc = false;
         ixml_grammar->errno_ = xmqStateErrno(state);
-        ixml_grammar->error_ = build_error_message("%s\n", xmqStateErrorMsg(state));
+        set_doc_error(ixml_grammar, build_error_message("%s\n", xmqStateErrorMsg(state)));
     }
 
     // Do not free the state, it must be kept alive with the doc
@@ -4722,9 +4775,10 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
     if (!state || ixml_grammar->errno_ != XMQ_ERROR_NONE)
     {
         doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
-        doc->error_ = build_error_message("xmq: no valid ixml grammar to parse with\n");
+        set_doc_error(doc, build_error_message("xmq: no valid ixml grammar to parse with\n"));
         return false;
     }
+    if (doc != ixml_grammar) start_with_empty_doc(doc);
     doc->original_size_ = stop-start;
     state->error_nr = XMQ_ERROR_NONE;
     state->ixml_try_to_recover = (flags & XMQ_FLAG_IXML_TRY_TO_RECOVER) ? true : false;
@@ -4734,7 +4788,7 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
     if (!scan_content_fixup_charsets(state, start, stop))
     {
         doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
-        doc->error_ = build_error_message("xmq: could not parse input using ixml grammar: broken utf8\n");
+        set_doc_error(doc, build_error_message("xmq: could not parse input using ixml grammar: broken utf8\n"));
         return false;
     }
 
@@ -4769,8 +4823,8 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
         state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
         state->error_info = "internal error, yaep did not accept generated yaep grammar";
         doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
-        doc->error_ = build_error_message("xmq: could not parse input using ixml grammar: %s\n",
-                                          yaep_error_message(xmq_get_yaep_grammar(ixml_grammar)));
+        set_doc_error(doc, build_error_message("xmq: could not parse input using ixml grammar: %s\n",
+                                          yaep_error_message(xmq_get_yaep_grammar(ixml_grammar))));
         return false;
     }
 
@@ -4794,8 +4848,8 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
     if (rc)
     {
         doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
-        doc->error_ = build_error_message("xmq: could not parse input using ixml grammar: %s\n",
-                                          yaep_error_message(xmq_get_yaep_grammar(ixml_grammar)));
+        set_doc_error(doc, build_error_message("xmq: could not parse input using ixml grammar: %s\n",
+                                          yaep_error_message(xmq_get_yaep_grammar(ixml_grammar))));
         return false;
     }
 
@@ -4804,7 +4858,7 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
         // The input does not match the grammar.
         if (run->root) yaepFreeTree(run->root, NULL, NULL);
         doc->errno_ = state->error_nr;
-        doc->error_ = build_error_message("%s", state->generated_error_msg);
+        set_doc_error(doc, build_error_message("%s", state->generated_error_msg));
         return false;
     }
 
@@ -4832,13 +4886,13 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
     if (!fits)
     {
         doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
-        doc->error_ = build_error_message("xmq: parsing the input using the ixml grammar does not give a single root element\n");
+        set_doc_error(doc, build_error_message("xmq: parsing the input using the ixml grammar does not give a single root element\n"));
         return false;
     }
     if (duplicate)
     {
         doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
-        doc->error_ = build_error_message("xmq: parsing the input using the ixml grammar gives an element two attributes with the same name\n");
+        set_doc_error(doc, build_error_message("xmq: parsing the input using the ixml grammar gives an element two attributes with the same name\n"));
         return false;
     }
 
@@ -5021,7 +5075,8 @@ char *xmq_line_vprintf_hr(XMQLineConfig *lc, const char *element_name, va_list a
 
             if (n < buf_size)
             {
-                // The generated output fitted in the allocated buffer.
+                // The generated output fits in the allocated buffer.
+                vsnprintf(buf, buf_size, format, ap);
                 break;
             }
 
@@ -5118,7 +5173,8 @@ char *xmq_line_vprintf_xmq(XMQLineConfig *lc, const char *element_name, va_list
 
             if (n < buf_size)
             {
-                // The generated output fitted in the allocated buffer.
+                // The generated output fits in the allocated buffer.
+                vsnprintf(buf, buf_size, format, ap);
                 break;
             }
 
-- 
2.43.0


From 58536bf20772b79cc7b46e2892478374466b7822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 38/63] fix: decode json surrogate pairs and free a json string
 when its doctype is bad

A character above 0xffff was decoded into two invalid utf8 sequences. Half a
pair and \u0000 cannot be stored and are now reported as invalid escapes.
---
 src/main/c/parts/json.c          | 48 ++++++++++++++++++++++++--------
 src/main/c/parts/xmq_internals.h |  2 +-
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 5933b2d..486602f 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -152,14 +152,36 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
                         increment(c, 1, &i, &line, &col);
 
                         int uc = (c1<<12)|(c2<<8)|(c3<<4)|c4;
-                        UTF8Char utf8;
-                        size_t n = encode_utf8(uc, &utf8);
 
-                        for (size_t j = 0; j < n; ++j)
+                        if (uc >= 0xd800 && uc < 0xdc00 &&
+                            i+5 < stop && *(i+0) == '\\' && *(i+1) == 'u' &&
+                            is_hex(*(i+2)) && is_hex(*(i+3)) && is_hex(*(i+4)) && is_hex(*(i+5)))
                         {
-                            membuffer_append_char(buf, utf8.bytes[j]);
+                            // A unicode above 0xffff is escaped as a surrogate pair.
+                            int lo =
+                                (hex_value(*(i+2))<<12)|
+                                (hex_value(*(i+3))<<8)|
+                                (hex_value(*(i+4))<<4)|
+                                hex_value(*(i+5));
+                            if (lo >= 0xdc00 && lo < 0xe000)
+                            {
+                                for (int j = 0; j < 6; ++j) increment(*i, 1, &i, &line, &col);
+                                uc = 0x10000 + ((uc-0xd800)<<10) + (lo-0xdc00);
+                            }
+                        }
+
+                        // Neither a zero byte nor half a surrogate pair can be stored in the document.
+                        if (uc != 0 && (uc < 0xd800 || uc >= 0xe000))
+                        {
+                            UTF8Char utf8;
+                            size_t n = encode_utf8(uc, &utf8);
+
+                            for (size_t j = 0; j < n; ++j)
+                            {
+                                membuffer_append_char(buf, utf8.bytes[j]);
+                            }
+                            continue;
                         }
-                        continue;
                     }
                 }
             }
@@ -255,6 +277,8 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
 
     // Decode and content_start points to newly allocated buffer where escapes have been removed.
     eat_json_quote(state, &content_start, &content_stop);
+    // Remember the content as well, in case of a parse error the longjmp skips the frees below.
+    stack_push(state->json_keys, content_start);
     size_t content_len = content_stop-content_start;
 
     trim_index_suffix(key_start, &key_stop);
@@ -263,7 +287,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
     {
         // This is "|":"symbol" which means a pure text node in xml.
         DO_CALLBACK_SIM(quote, state, start_line, 1, content_start, content_stop, content_stop);
-        free(content_start);
+        free(stack_pop(state->json_keys));
         return;
     }
 
@@ -271,7 +295,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
     {
         // This is "//":"symbol" which means a comment node in xml.
         DO_CALLBACK_SIM(comment, state, start_line, start_col, content_start, content_stop, content_stop);
-        free(content_start);
+        free(stack_pop(state->json_keys));
         return;
     }
 
@@ -283,7 +307,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
         DO_CALLBACK_SIM(comment, state, start_line, start_col, content_start, content_stop, content_stop);
         if (!state->root_found) state->add_pre_node_before = NULL;
         else                    state->add_post_node_after = NULL;
-        free(content_start);
+        free(stack_pop(state->json_keys));
         return;
     }
 
@@ -322,7 +346,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
         free(name);
         if (do_return)
         {
-            free(content_start);
+            free(stack_pop(state->json_keys));
             // This will be set many times.
             state->root_found = true;
             return;
@@ -340,7 +364,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
             state->add_pre_node_before = (xmlNode*)state->element_stack->top->data;
             DO_CALLBACK_SIM(element_value_quote, state, state->line, state->col, content_start, content_stop, content_stop);
             state->add_pre_node_before = NULL;
-            free(content_start);
+            free(stack_pop(state->json_keys));
             return;
         }
     }
@@ -389,7 +413,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
             DO_CALLBACK_SIM(attr_key, state, state->line, state->col, key_start+1, key_stop, key_stop);
             DO_CALLBACK_SIM(attr_value_quote, state, start_line, start_col, content_start, content_stop, content_stop);
         }
-        free(content_start);
+        free(stack_pop(state->json_keys));
         return;
     }
 
@@ -424,7 +448,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
     }
 
     DO_CALLBACK_SIM(element_value_text, state, start_line, start_col, content_start, content_stop, content_stop);
-    free(content_start);
+    free(stack_pop(state->json_keys));
 }
 
 bool is_json_null(XMQParseState *state)
diff --git a/src/main/c/parts/xmq_internals.h b/src/main/c/parts/xmq_internals.h
index c8e55d2..32b5d3d 100644
--- a/src/main/c/parts/xmq_internals.h
+++ b/src/main/c/parts/xmq_internals.h
@@ -322,7 +322,7 @@ struct XMQParseState
     const char *last_attr_start;
     size_t last_attr_start_line;
     size_t last_attr_start_col;
-    Stack *json_keys; // Allocated json keys whose values are being parsed.
+    Stack *json_keys; // Allocated json keys and strings which are being parsed.
     const char *last_quote_start;
     size_t last_quote_start_line;
     size_t last_quote_start_col;
-- 
2.43.0


From 4db0fcf022f0c4d4156dec757fce066e11ceaf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 39/63] fix: stop when out of memory instead of dropping
 content

libxml2 and libxslt silently drop parts of a document or of the output when
they do not get memory. Formatting the out of memory message itself needed
memory.
---
 src/main/c/parts/always.c    |  3 ++-
 src/main/c/parts/hashmap.c   |  2 ++
 src/main/c/parts/membuffer.c |  9 ++++++++-
 src/main/c/parts/text.c      |  3 +++
 src/main/c/parts/vector.c    |  1 +
 src/main/c/parts/xml.c       |  2 ++
 src/main/c/xmq-cli.c         | 28 ++++++++++++++++++++++++++++
 src/main/c/xmq.c             | 20 ++++++++++++++++++++
 8 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/src/main/c/parts/always.c b/src/main/c/parts/always.c
index 19f47a8..226d061 100644
--- a/src/main/c/parts/always.c
+++ b/src/main/c/parts/always.c
@@ -24,7 +24,8 @@ void check_malloc(void *a)
 {
     if (!a)
     {
-        PRINT_ERROR("libxmq: Out of memory!\n");
+        // Formatting an error line needs memory.
+        fputs("libxmq: Out of memory!\n", stderr);
         exit(1);
     }
 }
diff --git a/src/main/c/parts/hashmap.c b/src/main/c/parts/hashmap.c
index 56b1228..1d8a858 100644
--- a/src/main/c/parts/hashmap.c
+++ b/src/main/c/parts/hashmap.c
@@ -19,6 +19,7 @@ LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
 OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
 WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE. */
 
+#include"always.h"
 #include"hashmap.h"
 #include<assert.h>
 
@@ -76,6 +77,7 @@ HashMapNode* hashmap_create_node(const char *key)
     HashMapNode* new_node = (HashMapNode*) malloc(sizeof(HashMapNode));
     memset(new_node, 0, sizeof(*new_node));
     new_node->key_ = strdup(key);
+    check_malloc(new_node->key_);
 
     return new_node;
 }
diff --git a/src/main/c/parts/membuffer.c b/src/main/c/parts/membuffer.c
index 14ed440..1a8453f 100644
--- a/src/main/c/parts/membuffer.c
+++ b/src/main/c/parts/membuffer.c
@@ -44,7 +44,9 @@ MemBuffer *new_membuffer()
 char *free_membuffer_but_return_trimmed_content(MemBuffer *mb)
 {
     char *b = mb->buffer_;
-    b = (char*)realloc(b, mb->used_);
+    char *trimmed = (char*)realloc(b, mb->used_);
+    // If the content cannot be trimmed, then it is returned as it is.
+    if (trimmed || mb->used_ == 0) b = trimmed;
     free(mb);
     return b;
 }
@@ -90,6 +92,7 @@ void membuffer_append_region(MemBuffer *mb, const char *start, const char *stop)
     if (max > mb->max_)
     {
         mb->buffer_ = (char*)realloc(mb->buffer_, max);
+        check_malloc(mb->buffer_);
         mb->max_ = max;
     }
     memcpy(mb->buffer_+mb->used_, start, add);
@@ -110,6 +113,7 @@ void membuffer_append(MemBuffer *mb, const char *start)
             size_t max = pick_buffer_new_size(mb->max_, mb->used_, 1);
             assert(max >= mb->max_);
             mb->buffer_ = (char*)realloc(mb->buffer_, max);
+            check_malloc(mb->buffer_);
             mb->max_ = max;
             stop = mb->buffer_+mb->max_;
             to = mb->buffer_+mb->used_;
@@ -127,6 +131,7 @@ void membuffer_append_char(MemBuffer *mb, char c)
     if (max > mb->max_)
     {
         mb->buffer_ = (char*)realloc(mb->buffer_, max);
+        check_malloc(mb->buffer_);
         mb->max_ = max;
     }
     memcpy(mb->buffer_+mb->used_, &c, 1);
@@ -140,6 +145,7 @@ void membuffer_append_int(MemBuffer *mb, int i)
     if (max > mb->max_)
     {
         mb->buffer_ = (char*)realloc(mb->buffer_, max);
+        check_malloc(mb->buffer_);
         mb->max_ = max;
     }
     memcpy(mb->buffer_+mb->used_, &i, sizeof(i));
@@ -180,6 +186,7 @@ void membuffer_append_pointer(MemBuffer *mb, void *ptr)
     if (max > mb->max_)
     {
         mb->buffer_ = (char*)realloc(mb->buffer_, max);
+        check_malloc(mb->buffer_);
         mb->max_ = max;
     }
     memcpy(mb->buffer_+mb->used_, &ptr, sizeof(ptr));
diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 619f4da..149d2eb 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -510,6 +510,7 @@ char *xmq_quote_as_c(const char *start, const char *stop, bool add_quotes)
     real++;
     *o = 0;
     buf = (char*)realloc(buf, real);
+    check_malloc(buf);
     return buf;
 }
 
@@ -570,6 +571,7 @@ char *xmq_unquote_as_c(const char *start, const char *stop, bool remove_quotes)
     real++;
     *o = 0;
     buf = (char*)realloc(buf, real);
+    check_malloc(buf);
     return buf;
 }
 
@@ -598,6 +600,7 @@ char *potentially_add_leading_ending_space(const char *start, const char *stop)
     else
     {
         content = strndup(start, stop-start);
+        check_malloc(content);
     }
     return content;
 }
diff --git a/src/main/c/parts/vector.c b/src/main/c/parts/vector.c
index da7d52d..169e6e9 100644
--- a/src/main/c/parts/vector.c
+++ b/src/main/c/parts/vector.c
@@ -80,6 +80,7 @@ void vector_push_back(Vector *vector, void *data)
             vector->elements_size *= 2;
         }
         vector->elements = (void**)realloc(vector->elements, vector->elements_size * sizeof(void*));
+        check_malloc(vector->elements);
         assert(vector->elements);
     }
     vector->elements[vector->size-1] = data;
diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index 342d0d2..368d606 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -1,6 +1,7 @@
 
 #ifndef BUILDING_XMQ
 
+#include"always.h"
 #include"xml.h"
 #include"text.h"
 #include<assert.h>
@@ -285,6 +286,7 @@ char *xml_collapse_text(xmlNode *node)
     *out = 0;
     out++;
     buf = (char*)realloc(buf, out-buf);
+    check_malloc(buf);
     return buf;
 }
 
diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 700c4ef..deb724b 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -4025,10 +4025,38 @@ static void check_stdout_delivered()
     }
 }
 
+// When libxml2 or libxslt do not get the memory they ask for, then they silently drop
+// content from the document or from the output. Stop here instead.
+static void *stop_if_out_of_memory(void *p, size_t n)
+{
+    if (!p && n > 0)
+    {
+        fputs("xmq: Out of memory!\n", stderr);
+        exit(1);
+    }
+    return p;
+}
+
+static void *xml_malloc(size_t n)
+{
+    return stop_if_out_of_memory(malloc(n), n);
+}
+
+static void *xml_realloc(void *p, size_t n)
+{
+    return stop_if_out_of_memory(realloc(p, n), n);
+}
+
+static char *xml_strdup(const char *s)
+{
+    return (char*)stop_if_out_of_memory(strdup(s), 1);
+}
+
 int main(int argc, const char **argv)
 {
     int rc = 0;
     atexit(check_stdout_delivered);
+    xmlMemSetup(free, xml_malloc, xml_realloc, xml_strdup);
     if (argc < 2 && isatty(0)) cmd_help(NULL);
 
     verbose_enabled__ = has_verbose(argc, argv);
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 8cdc535..62d83d3 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -949,6 +949,7 @@ bool xmqTokenizeBuffer(XMQParseState *state, const char *start, const char *stop
     if (detected_ct != XMQ_CONTENT_XMQ)
     {
         state->generated_error_msg = strdup("xmq: you can only tokenize the xmq format");
+        check_malloc(state->generated_error_msg);
         state->error_nr = XMQ_ERROR_NOT_XMQ;
         return false;
     }
@@ -1030,6 +1031,7 @@ bool xmqTokenizeFile(XMQParseState *state, const char *file)
     {
         state->error_nr = (XMQParseError)xmqDocErrno(doq);
         state->generated_error_msg = strdup(xmqDocError(doq));
+        check_malloc(state->generated_error_msg);
         goto exit;
     }
 
@@ -1039,6 +1041,7 @@ bool xmqTokenizeFile(XMQParseState *state, const char *file)
     if (content != XMQ_CONTENT_XMQ)
     {
         state->generated_error_msg = strdup("You can only tokenize xmq!");
+        check_malloc(state->generated_error_msg);
         state->error_nr = XMQ_ERROR_NOT_XMQ;
         rc = false;
         goto exit;
@@ -1269,6 +1272,7 @@ const char *build_error_message(const char* fmt, ...)
     va_end(args);
     buf[4095] = 0;
     buf = (char*)realloc(buf, strlen(buf)+1);
+    check_malloc(buf);
     return buf;
 }
 
@@ -1421,6 +1425,7 @@ char *xmq_trim_quote(size_t indent, char space, const char *start, const char *s
     {
         // No newline was found, then do not trim! Return as is.
         char *buf = strndup(start, stop-start);
+        check_malloc(buf);
         return buf;
     }
 
@@ -1574,6 +1579,7 @@ char *xmq_trim_quote(size_t indent, char space, const char *start, const char *s
     *o++ = 0;
     size_t real_size = o-output;
     output = (char*)realloc(output, real_size);
+    check_malloc(output);
     return output;
 }
 
@@ -1984,6 +1990,7 @@ xmlNodePtr create_quote(XMQParseState *state,
 {
     size_t indent = col - 1;
     char *trimmed = (state->no_trim_quotes)?strndup(start, stop-start):xmq_un_quote(indent, ' ', start, stop, true);
+    check_malloc(trimmed);
     xmlNodePtr n = xmlNewDocText(state->doq->docptr_.xml, (const xmlChar *)trimmed);
     if (state->merge_text)
     {
@@ -2032,6 +2039,7 @@ xmlNodePtr create_entity(XMQParseState *state,
                          xmlNodePtr parent)
 {
     char *tmp = strndup(start, stop-start);
+    check_malloc(tmp);
     xmlNodePtr n = NULL;
     if (tmp[1] == '#')
     {
@@ -2092,6 +2100,7 @@ void do_comment(XMQParseState*state,
     xmlNodePtr parent = (xmlNode*)state->element_stack->top->data;
     size_t indent = col-1;
     char *trimmed = (state->no_trim_quotes)?strndup(start, stop-start):xmq_un_comment(indent, ' ', start, stop);
+    check_malloc(trimmed);
     xmlNodePtr n = xmlNewDocComment(state->doq->docptr_.xml, (const xmlChar *)trimmed);
 
     if (state->add_pre_node_before)
@@ -2189,6 +2198,7 @@ void do_element_value_quote(XMQParseState *state,
                             const char *suffix)
 {
     char *trimmed = (state->no_trim_quotes)?strndup(start, stop-start):xmq_un_quote(col-1, ' ', start, stop, true);
+    check_malloc(trimmed);
     if (state->parsing_pi)
     {
         char *content = potentially_add_leading_ending_space(trimmed, trimmed+strlen(trimmed));
@@ -2282,6 +2292,7 @@ void do_attr_ns(XMQParseState *state,
     {
         // Normal attribute namespace found before the attribute key, eg x:alfa=123 xlink:href=http...
         char *ns = strndup(start, stop-start);
+        check_malloc(ns);
         state->attribute_namespace = ns;
     }
     else
@@ -2343,6 +2354,7 @@ void do_ns_declaration(XMQParseState *state,
         // The prefix starts at stop+1.
         size_t len = suffix-(stop+1);
         char *name = strndup(stop+1, len);
+        check_malloc(name);
         ns = xmlNewNs(element,
                       NULL,
                       (const xmlChar *)name);
@@ -2429,6 +2441,7 @@ void update_namespace_href(XMQParseState *state,
     if (!stop) stop = start+strlen(start);
 
     char *href = strndup(start, stop-start);
+    check_malloc(href);
     if (ns->href) xmlFree((xmlChar*)ns->href);
     ns->href = (const xmlChar*)href;
     debug("xmq=", "update namespace prefix=%s with href=%s", ns->prefix, href);
@@ -2473,6 +2486,7 @@ void do_attr_value_quote(XMQParseState*state,
     if (state->declaring_xmlns)
     {
         char *trimmed = (state->no_trim_quotes)?strndup(start, stop-start):xmq_un_quote(col-1, ' ', start, stop, true);
+        check_malloc(trimmed);
         update_namespace_href(state, (xmlNsPtr)state->declaring_xmlns_namespace, trimmed, NULL);
         state->declaring_xmlns = false;
         state->declaring_xmlns_namespace = NULL;
@@ -2516,6 +2530,7 @@ void create_node(XMQParseState *state, const char *start, const char *stop)
 {
     size_t len = stop-start;
     char *name = strndup(start, len);
+    check_malloc(name);
 
     if (!strcmp(name, "!DOCTYPE"))
     {
@@ -2526,6 +2541,7 @@ void create_node(XMQParseState *state, const char *start, const char *stop)
         state->parsing_pi = true;
         free((char*)state->pi_name);
         state->pi_name = strdup(name+1); // Drop the ?
+        check_malloc((void*)state->pi_name);
     }
     else
     {
@@ -2596,6 +2612,7 @@ void do_element_ns(XMQParseState *state,
                    const char *suffix)
 {
     char *ns = strndup(start, stop-start);
+    check_malloc(ns);
     state->element_namespace = ns;
 }
 
@@ -3302,6 +3319,7 @@ char *unescape_xml_comment(const char *comment)
 
     size_t new_len = j-tmp;
     tmp = (char*)realloc(tmp, new_len);
+    check_malloc(tmp);
 
     return tmp;
 }
@@ -4077,6 +4095,7 @@ bool xmq_parse_buffer_text(XMQDoc *doq, const char *start, const char *stop, con
 {
     start_with_empty_doc(doq);
     char *buffer = strndup(start, stop-start);
+    check_malloc(buffer);
     xmlNodePtr text = xmlNewDocText(doq->docptr_.xml, (xmlChar*)buffer);
     free(buffer);
 
@@ -4114,6 +4133,7 @@ bool xmq_parse_buffer_clines(XMQDoc *doq, const char *start, const char *stop)
 {
     start_with_empty_doc(doq);
     char *buffer = strndup(start, stop-start);
+    check_malloc(buffer);
     xmlNodePtr text = xmlNewDocText(doq->docptr_.xml, (xmlChar*)buffer);
     free(buffer);
 
-- 
2.43.0


From 9d7656332f1a3e7f3705e7902eb26f117992ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 40/63] fix: keep a processing instruction in its place, and
 read back every value it prints

---
 src/main/c/parts/xmq_internals.h |  2 +-
 src/main/c/parts/xmq_parser.c    |  7 ++--
 src/main/c/parts/xmq_printer.c   | 27 +++------------
 src/main/c/xmq.c                 | 58 ++++++++++++++++++++++----------
 4 files changed, 52 insertions(+), 42 deletions(-)

diff --git a/src/main/c/parts/xmq_internals.h b/src/main/c/parts/xmq_internals.h
index 32b5d3d..cb6f439 100644
--- a/src/main/c/parts/xmq_internals.h
+++ b/src/main/c/parts/xmq_internals.h
@@ -304,7 +304,7 @@ struct XMQParseState
     bool no_trim_quotes; // No trimming if quotes, used when reading json strings.
     bool ixml_all_parses; // If IXML parse is ambiguous then print all parses.
     bool ixml_try_to_recover; // If IXML parse fails, try to recover.
-    const char *pi_name; // Name of the pi node just started.
+    void *pi_node; // The pi node (xmlNodePtr) just started.
     XMQOutputSettings *output_settings; // Used when coloring existing text using the tokenizer.
     int magic_cookie; // Used to check that the state has been properly initialized.
 
diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index c9078af..23b3638 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -718,7 +718,10 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
     c = peek_char(state, 0);
     if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_char(state, 0); }
 
-    if (c == '(')
+    // A doctype or a processing instruction has neither attributes nor children.
+    bool plain = doctype || pi;
+
+    if (c == '(' && !plain)
     {
         const char *start = state->i;
         state->last_attr_start = state->i;
@@ -771,7 +774,7 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
         return;
     }
 
-    if (c == '{')
+    if (c == '{' && !plain)
     {
         const char *start = state->i;
         state->last_body_start = state->i;
diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 5d86065..7b397be 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -417,37 +417,20 @@ void print_pi_node(XMQPrintState *ps, xmlNode *node)
     if (!node) return;
 
     check_space_before_key(ps);
-    size_t name_len = strlen((const char*)node->name);
     print_utf8(ps, COLOR_element_key, 2, "?", NULL, node->name, NULL);
     if (!ps->output_settings->compact) print_white_spaces(ps, 1);
     print_utf8(ps, COLOR_equals, 1, "=", NULL);
     if (!ps->output_settings->compact) print_white_spaces(ps, 1);
 
-    xmlBuffer *buffer = xmlBufferCreate();
-    xmlNodeDump(buffer, (xmlDocPtr)ps->doq->docptr_.xml, (xmlNodePtr)node, 0, 0);
-    char *c = (char*)xmlBufferContent(buffer);
-    size_t n = strlen(c);
+    const char *c = node->content ? (const char*)node->content : "";
     // now detect if we need to add a leading/ending space.
-    if (c[n-1] == '>' && c[n-2] == '?')
-    {
-        n-=2;
-    }
-    char *content = potentially_add_leading_ending_space(c+name_len+3, c+n);
-    n = strlen(content);
-    char *end = content+n;
+    char *content = potentially_add_leading_ending_space(c, c+strlen(c));
 
-    if (ps->output_settings->compact)
-    {
-        for (char *i = content; i < end; ++i)
-        {
-            if (*i == '\n') *i = ' ';
-        }
-    }
-
-    print_value_internal_text(ps, content, end, LEVEL_ELEMENT_VALUE);
+    xmlNode *text = xmlNewDocText(node->doc, (const xmlChar*)content);
+    print_value(ps, text, LEVEL_ELEMENT_VALUE);
+    xmlFreeNode(text);
 
     free(content);
-    xmlBufferFree(buffer);
 }
 
 void print_node(XMQPrintState *ps, xmlNode *node, size_t align)
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 62d83d3..fc23554 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -61,6 +61,7 @@ size_t calculate_buffer_size(const char *start, const char *stop, int indent, co
 void copy_and_insert(MemBuffer *mb, const char *start, const char *stop, int num_prefix_spaces, const char *implicit_indentation, const char *explicit_space, const char *newline, const char *prefix_line, const char *postfix_line);
 char *copy_lines(int num_prefix_spaces, const char *start, const char *stop, int num_quotes, bool add_nls, bool add_compound, const char *implicit_indentation, const char *explicit_space, const char *newline, const char *prefix_line, const char *postfix_line);
 void copy_quote_settings_from_output_settings(XMQQuoteSettings *qs, XMQOutputSettings *os);
+void add_pi_content(XMQParseState *state, const char *content);
 xmlNodePtr create_entity(XMQParseState *state, size_t l, size_t c, const char *cstart, const char *cstop, const char*stop, xmlNodePtr parent);
 void create_node(XMQParseState *state, const char *start, const char *stop);
 void update_namespace_href(XMQParseState *state, xmlNsPtr ns, const char *start, const char *stop);
@@ -1830,8 +1831,6 @@ void xmqFreeParseState(XMQParseState *state)
     if (state->ixml_charset) free_ixml_charset(state->ixml_charset);
     state->ixml_charset = NULL;
 
-    free((char*)state->pi_name);
-    state->pi_name = NULL;
     free((char*)state->element_namespace);
     state->element_namespace = NULL;
     free((char*)state->attribute_namespace);
@@ -2030,6 +2029,13 @@ void do_quote(XMQParseState *state,
                                        (xmlNode*)state->element_stack->top->data);
 }
 
+// Append to the content of the processing instruction being parsed.
+void add_pi_content(XMQParseState *state, const char *content)
+{
+    // No content is not the same as empty content.
+    if (*content) xmlNodeAddContent((xmlNodePtr)state->pi_node, (const xmlChar *)content);
+}
+
 xmlNodePtr create_entity(XMQParseState *state,
                          size_t l,
                          size_t c,
@@ -2074,7 +2080,17 @@ xmlNodePtr create_entity(XMQParseState *state,
         // Named references are kept as is.
         n = xmlNewReference(state->doq->docptr_.xml, (const xmlChar *)tmp);
     }
-    n = xmlAddChild(parent, n);
+    if (state->parsing_pi)
+    {
+        // A processing instruction has no children, only content.
+        add_pi_content(state, n->type == XML_TEXT_NODE ? (const char*)n->content : tmp);
+        xmlFreeNode(n);
+        n = parent;
+    }
+    else
+    {
+        n = xmlAddChild(parent, n);
+    }
     free(tmp);
 
     return n;
@@ -2159,14 +2175,9 @@ void do_element_value_text(XMQParseState *state,
     if (state->parsing_pi)
     {
         char *content = potentially_add_leading_ending_space(start, stop);
-        xmlNodePtr n = (xmlNodePtr)xmlNewPI((xmlChar*)state->pi_name, (xmlChar*)content);
-        xmlNodePtr parent = (xmlNode*)state->element_stack->top->data;
-        xmlAddChild(parent, n);
+        add_pi_content(state, content);
         free(content);
-
         state->parsing_pi = false;
-        free((char*)state->pi_name);
-        state->pi_name = NULL;
     }
     else if (state->parsing_doctype)
     {
@@ -2202,12 +2213,8 @@ void do_element_value_quote(XMQParseState *state,
     if (state->parsing_pi)
     {
         char *content = potentially_add_leading_ending_space(trimmed, trimmed+strlen(trimmed));
-        xmlNodePtr n = (xmlNodePtr)xmlNewPI((xmlChar*)state->pi_name, (xmlChar*)content);
-        xmlNodePtr parent = (xmlNode*)state->element_stack->top->data;
-        xmlAddChild(parent, n);
+        add_pi_content(state, content);
         state->parsing_pi = false;
-        free((char*)state->pi_name);
-        state->pi_name = NULL;
         free(content);
     }
     else if (state->parsing_doctype)
@@ -2268,6 +2275,14 @@ void do_element_value_compound_quote(XMQParseState *state,
                                      const char *stop,
                                      const char *suffix)
 {
+    if (state->parsing_pi)
+    {
+        char *trimmed = (state->no_trim_quotes)?strndup(start, stop-start):xmq_un_quote(col-1, ' ', start, stop, true);
+        check_malloc(trimmed);
+        add_pi_content(state, trimmed);
+        free(trimmed);
+        return;
+    }
     do_quote(state, line, col, start, stop, suffix);
 }
 
@@ -2278,6 +2293,11 @@ void do_element_value_compound_entity(XMQParseState *state,
                                       const char *stop,
                                       const char *suffix)
 {
+    if (state->parsing_pi)
+    {
+        create_entity(state, line, col, start, stop, suffix, NULL);
+        return;
+    }
     do_entity(state, line, col, start, stop, suffix);
 }
 
@@ -2529,6 +2549,7 @@ void do_attr_value_compound_entity(XMQParseState *state,
 void create_node(XMQParseState *state, const char *start, const char *stop)
 {
     size_t len = stop-start;
+    state->parsing_pi = false;
     char *name = strndup(start, len);
     check_malloc(name);
 
@@ -2538,10 +2559,11 @@ void create_node(XMQParseState *state, const char *start, const char *stop)
     }
     else if (name[0] == '?')
     {
+        // Add the processing instruction, its content, if any, follows. Drop the ?
+        xmlNodePtr n = xmlNewDocPI(state->doq->docptr_.xml, (const xmlChar *)name+1, NULL);
+        xmlAddChild((xmlNode*)state->element_stack->top->data, n);
         state->parsing_pi = true;
-        free((char*)state->pi_name);
-        state->pi_name = strdup(name+1); // Drop the ?
-        check_malloc((void*)state->pi_name);
+        state->pi_node = n;
     }
     else
     {
@@ -2633,6 +2655,8 @@ void do_element_name(XMQParseState *state,
                      const char *suffix)
 {
     create_node(state, start, stop);
+    // No equals, no content.
+    state->parsing_pi = false;
 }
 
 void do_element_key(XMQParseState *state,
-- 
2.43.0


From 70bb9efbf8c49189e6461ca3a3851e9a668e5048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 41/63] fix: terminate a four byte utf8 char and the short name
 of a grammar symbol

---
 src/main/c/parts/text.c    | 1 +
 src/main/c/parts/yaep.c    | 2 ++
 src/main/c/yaep/src/yaep.c | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 149d2eb..2be33ba 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -231,6 +231,7 @@ size_t encode_utf8(int uc, UTF8Char *utf8)
     utf8->bytes[1] = 0;
     utf8->bytes[2] = 0;
     utf8->bytes[3] = 0;
+    utf8->bytes[4] = 0;
 
     if (uc <= 0x7f)
     {
diff --git a/src/main/c/parts/yaep.c b/src/main/c/parts/yaep.c
index 77e1c7e..084a9d3 100644
--- a/src/main/c/parts/yaep.c
+++ b/src/main/c/parts/yaep.c
@@ -3158,6 +3158,7 @@ static YaepSymbol *symb_add_terminal(YaepParseState *ps, const char*name, int co
     else
     {
         strncpy(symb.hr, name, 6);
+        symb.hr[6] = 0;
     }
     symb.terminal_p = true;
     // Assign the next available id.
@@ -3195,6 +3196,7 @@ static YaepSymbol *symb_add_nonterm(YaepParseState *ps, const char *name)
 
     symb.repr = name;
     strncpy(symb.hr, name, 6);
+    symb.hr[6] = 0;
 
     symb.terminal_p = false;
     // Assign the next available id.
diff --git a/src/main/c/yaep/src/yaep.c b/src/main/c/yaep/src/yaep.c
index 2495f34..563f119 100644
--- a/src/main/c/yaep/src/yaep.c
+++ b/src/main/c/yaep/src/yaep.c
@@ -1037,6 +1037,7 @@ static YaepSymbol *symb_add_terminal(YaepParseState *ps, const char*name, int co
     else
     {
         strncpy(symb.hr, name, 6);
+        symb.hr[6] = 0;
     }
     symb.terminal_p = true;
     // Assign the next available id.
@@ -1074,6 +1075,7 @@ static YaepSymbol *symb_add_nonterm(YaepParseState *ps, const char *name)
 
     symb.repr = name;
     strncpy(symb.hr, name, 6);
+    symb.hr[6] = 0;
 
     symb.terminal_p = false;
     // Assign the next available id.
-- 
2.43.0


From 65d3bc6020af9423ece8ff1c1b783314b5ccc990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 42/63] fix: keep every json key, number and control char when
 converting to and from json

---
 src/main/c/parts/json.c | 79 ++++++++++++++++++++++++++++-------------
 src/main/c/parts/text.c | 49 ++++++++++++++++++++++++-
 src/main/c/parts/text.h |  1 +
 src/main/c/xmq.c        |  4 ++-
 4 files changed, 107 insertions(+), 26 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 486602f..422f29f 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -410,7 +410,14 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
         else
         {
             // This is a normal attribute that was stored as "_attr":"value"
-            DO_CALLBACK_SIM(attr_key, state, state->line, state->col, key_start+1, key_stop, key_stop);
+            const char *attr_start = key_start+1;
+            if (colon && colon > attr_start && colon+1 < key_stop)
+            {
+                // The attribute name has a namespace prefix.
+                DO_CALLBACK_SIM(attr_ns, state, state->line, state->col, attr_start, colon, colon);
+                attr_start = colon+1;
+            }
+            DO_CALLBACK_SIM(attr_key, state, state->line, state->col, attr_start, key_stop, key_stop);
             DO_CALLBACK_SIM(attr_value_quote, state, start_line, start_col, content_start, content_stop, content_stop);
         }
         free(stack_pop(state->json_keys));
@@ -908,6 +915,32 @@ typedef struct
     size_t used;
 } Counter;
 
+// The name under which siblings are counted, ie siblings for which the same json key would be printed.
+// A NULL is returned if the node should not be counted. The name must be freed.
+static char *counted_name(xmlNode *node)
+{
+    const char *name = (const char*)node->name;
+    if (!name || !strcmp(name, "_")) return NULL; // No name or a single _
+
+    // Do not mix up comments and quotes with elements named comment and text.
+    const char *prefix = "#";
+    const char *sep = "";
+    if (is_element_node(node))
+    {
+        prefix = "";
+        if (node->ns && node->ns->prefix)
+        {
+            prefix = (const char*)node->ns->prefix;
+            sep = ":";
+        }
+    }
+    size_t len = strlen(prefix)+strlen(sep)+strlen(name)+1;
+    char *s = (char*)malloc(len);
+    check_malloc(s);
+    snprintf(s, len, "%s%s%s", prefix, sep, name);
+    return s;
+}
+
 void json_print_object_nodes(XMQPrintState *ps, xmlNode *container, xmlNode *from, xmlNode *to)
 {
     xmlNode *i = from;
@@ -916,8 +949,8 @@ void json_print_object_nodes(XMQPrintState *ps, xmlNode *container, xmlNode *fro
 
     while (i)
     {
-        const char *name = (const char*)i->name;
-        if (name && strcmp(name, "_")) // We have a name and it is NOT a single _
+        char *name = counted_name(i);
+        if (name)
         {
             Counter *c = (Counter*)hashmap_get(map, name);
             if (!c)
@@ -927,6 +960,7 @@ void json_print_object_nodes(XMQPrintState *ps, xmlNode *container, xmlNode *fro
                 hashmap_put(map, name, c);
             }
             c->total++;
+            free(name);
         }
         if (i == to) break;
         i = xml_next_sibling(i);
@@ -935,12 +969,13 @@ void json_print_object_nodes(XMQPrintState *ps, xmlNode *container, xmlNode *fro
     i = from;
     while (i)
     {
-        const char *name = (const char*)i->name;
-        if (name && strcmp(name, "_"))
+        char *name = counted_name(i);
+        if (name)
         {
-            Counter *c = (Counter*)hashmap_get(map, (const char*)i->name);
+            Counter *c = (Counter*)hashmap_get(map, name);
             json_print_node(ps, container, i, c->total, c->used);
             c->used++;
+            free(name);
         }
         else
         {
@@ -977,6 +1012,8 @@ void json_print_array_nodes(XMQPrintState *ps, xmlNode *container, xmlNode *from
 
 bool has_attr_other_than_AS_(xmlNode *node)
 {
+    if (xml_first_namespace_def(node)) return true;
+
     xmlAttr *a = xml_first_attribute(node);
 
     while (a)
@@ -1024,8 +1061,7 @@ void json_print_node(XMQPrintState *ps, xmlNode *container, xmlNode *node, size_
     // Also! If the node has attributes, then we cannot print as key value in json.
     // It has to be an object.
     if (is_key_value_node(node) &&
-        (!has_attributes(node) ||
-         !has_attr_other_than_AS_(node)))
+        !has_attr_other_than_AS_(node))
     {
         bool force_string = xml_get_attribute(node, "S");
         return json_print_key_node(ps, container, node, total, used, force_string);
@@ -1201,7 +1237,7 @@ void json_print_value(XMQPrintState *ps, xmlNode *from, xmlNode *to, Level level
                     const char *value = xml_element_content(node);
                     if (value)
                     {
-                        char *quoted_value = xmq_quote_as_c(value, value+strlen(value), false);
+                        char *quoted_value = xmq_quote_as_json(value, value+strlen(value), false);
                         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
                         free(quoted_value);
                     }
@@ -1270,7 +1306,7 @@ void json_print_attribute(XMQPrintState *ps, xmlAttr *a)
 
     json_check_comma(ps);
 
-    char *quoted_key = xmq_quote_as_c(key, key+strlen(key), false);
+    char *quoted_key = xmq_quote_as_json(key, key+strlen(key), false);
     print_utf8(ps, COLOR_none, 1, "\"_", NULL);
     if (prefix)
     {
@@ -1286,7 +1322,7 @@ void json_print_attribute(XMQPrintState *ps, xmlAttr *a)
         // An entity without known content is kept as a reference.
         if (!value) value = (char*)xmlNodeListGetString(a->doc, a->children, 0);
         if (!value) value = (char*)xmlStrdup((const xmlChar*)"");
-        char *quoted_value = xmq_quote_as_c(value, value+strlen(value), true);
+        char *quoted_value = xmq_quote_as_json(value, value+strlen(value), true);
         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
         free(quoted_value);
         xmlFree(value);
@@ -1319,7 +1355,9 @@ void json_print_namespace_declaration(XMQPrintState *ps, xmlNs *ns)
 
     if (v != NULL)
     {
-        print_utf8(ps, COLOR_none, 3, "\"", NULL, v, NULL, "\"", NULL);
+        char *quoted_value = xmq_quote_as_json(v, NULL, true);
+        print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
+        free(quoted_value);
     }
     else
     {
@@ -1461,7 +1499,7 @@ void json_print_element_name(XMQPrintState *ps, xmlNode *container, xmlNode *nod
             // The key was stored inside the attribute because it could not
             // be used as the element name.
             char *value = (char*)xmlNodeListGetString(node->doc, a->children, 1);
-            char *quoted_value = xmq_quote_as_c(value, value+strlen(value), false);
+            char *quoted_value = xmq_quote_as_json(value, value+strlen(value), false);
             print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
             free(quoted_value);
             xmlFree(value);
@@ -1580,7 +1618,7 @@ void json_print_standalone_quote(XMQPrintState *ps, xmlNodePtr container, xmlNod
 {
     json_check_comma(ps);
     const char *value = xml_element_content(node);
-    char *quoted_value = xmq_quote_as_c(value, value+strlen(value), false);
+    char *quoted_value = xmq_quote_as_json(value, value+strlen(value), false);
     if (total == 1)
     {
         print_utf8(ps, COLOR_none, 3, "\"|\":\"", NULL, quoted_value, NULL, "\"", NULL);
@@ -1619,18 +1657,11 @@ void json_print_leaf_node(XMQPrintState *ps,
     XMQOutputSettings *output_settings = ps->output_settings;
     XMQWrite write = output_settings->content.write;
     void *writer_state = output_settings->content.writer_state;
-    const char *name = xml_element_name(node);
 
     json_check_comma(ps);
 
-    if (name)
-    {
-        if (!(name[0] == '_' && name[1] == 0))
-        {
-            json_print_element_name(ps, container, node, total, used);
-            write(writer_state, ":", NULL);
-        }
-    }
+    json_print_element_name(ps, container, node, total, used);
+    write(writer_state, ":", NULL);
 
     if (xml_get_attribute(node, "A"))
     {
@@ -1639,7 +1670,7 @@ void json_print_leaf_node(XMQPrintState *ps,
     }
     else
     {
-        if (xml_first_attribute(node))
+        if (xml_first_attribute(node) || xml_first_namespace_def(node))
         {
             write(writer_state, "{", NULL);
             ps->last_char = '{';
diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 2be33ba..51e6a1c 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -387,6 +387,7 @@ bool is_xmq_element_start(char c)
 bool is_xmq_element_name(const char *start, const char *stop, const char **colon)
 {
     const char *i = start;
+    const char *found = NULL;
     *colon = NULL;
     if (!is_xmq_element_start(*i)) return false;
     i++;
@@ -395,8 +396,16 @@ bool is_xmq_element_name(const char *start, const char *stop, const char **colon
     {
         char c = *i;
         if (!is_xmq_text_name(c)) return false;
-        if (c == ':') *colon = i;
+        if (c == ':')
+        {
+            // There can be only one prefix.
+            if (found) return false;
+            found = i;
+        }
     }
+    // The prefix must be followed by a name.
+    if (found && (found+1 == stop || !is_xmq_element_start(*(found+1)))) return false;
+    *colon = found;
 
     return true;
 }
@@ -515,6 +524,44 @@ char *xmq_quote_as_c(const char *start, const char *stop, bool add_quotes)
     return buf;
 }
 
+/**
+    xmq_quote_as_json:
+    @start: Points to first byte of content to be quoted.
+    @stop: Points to byte after content, if NULL the content is null terminated.
+    @add_quotes: Surround the result with "
+
+    Escape as a json string. Json does not have the \a \v \xHH escapes of C.
+*/
+char *xmq_quote_as_json(const char *start, const char *stop, bool add_quotes)
+{
+    if (!stop) stop = start+strlen(start);
+
+    // Worst case expansion of a char is \uXXXX
+    char *buf = (char*)malloc((stop-start)*6+3);
+    check_malloc(buf);
+    char *o = buf;
+
+    if (add_quotes) *o++ = '"';
+    for (const char *i = start; i < stop && *i; ++i)
+    {
+        unsigned char c = *i;
+        char e = 0;
+        if (c == '"' || c == '\\') e = c;
+        else if (c == '\b') e = 'b';
+        else if (c == '\t') e = 't';
+        else if (c == '\n') e = 'n';
+        else if (c == '\f') e = 'f';
+        else if (c == '\r') e = 'r';
+
+        if (e) { *o++ = '\\'; *o++ = e; }
+        else if (c < ' ') o += sprintf(o, "\\u%04x", c);
+        else *o++ = c;
+    }
+    if (add_quotes) *o++ = '"';
+    *o = 0;
+    return buf;
+}
+
 /**
     xmq_unquote_as_c:
 
diff --git a/src/main/c/parts/text.h b/src/main/c/parts/text.h
index d1d6d09..182d07a 100644
--- a/src/main/c/parts/text.h
+++ b/src/main/c/parts/text.h
@@ -64,6 +64,7 @@ void str_b_u_len(const char *start, const char *stop, size_t *b_len, size_t *u_l
 char to_hex(int c);
 bool utf8_char_to_codepoint_string(UTF8Char *uc, char *buf);
 char *xmq_quote_as_c(const char *start, const char *stop, bool add_quotes);
+char *xmq_quote_as_json(const char *start, const char *stop, bool add_quotes);
 char *xmq_unquote_as_c(const char *start, const char *stop, bool remove_quotes);
 char *potentially_add_leading_ending_space(const char *start, const char *stop);
 bool find_line_col(const char *start, const char *stop, size_t at, int *line, int *col);
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index fc23554..b703db0 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1147,7 +1147,9 @@ XMQContentType xmqDetectContentType(const char *start, const char *stop)
                 debug("xmq=", "content assumed to be xml");
                 return XMQ_CONTENT_XML; // Or HTML...
             }
-            if (c == '{' || c == '"' || c == '[' || (c >= '0' && c <= '9')) // "
+            // A number can be negative, neither a digit nor a minus can start xmq.
+            const char *n = (c == '-' && i+1 < stop) ? i+1 : i;
+            if (c == '{' || c == '"' || c == '[' || (*n >= '0' && *n <= '9')) // "
             {
                 debug("xmq=", "content detected as json");
                 return XMQ_CONTENT_JSON;
-- 
2.43.0


From 9d0cab174813705a6eb4336f7ec9254e7de067c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 43/63] fix: read back the namespaces, quotes and doctypes that
 xmq prints

---
 src/main/c/parts/json.c          |  15 +-
 src/main/c/parts/xml.c           |  42 ++++-
 src/main/c/parts/xml.h           |   3 +
 src/main/c/parts/xmq_internals.h |   5 +-
 src/main/c/parts/xmq_printer.c   |  41 +++--
 src/main/c/parts/xmq_printer.h   |   3 +-
 src/main/c/xmq.c                 | 283 ++++++++++++++++++-------------
 7 files changed, 245 insertions(+), 147 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 422f29f..a9422d6 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -240,9 +240,7 @@ void set_node_namespace(XMQParseState *state, xmlNodePtr node, const char *node_
     if (state->element_namespace)
     {
         // Have a namespace before the element name, eg abc:work
-        xmlNsPtr ns = xmlSearchNs(state->doq->docptr_.xml,
-                                  node,
-                                  (const xmlChar *)state->element_namespace);
+        xmlNsPtr ns = xml_find_namespace(node, state->element_namespace);
         if (!ns)
         {
             // The namespaces does not yet exist. Lets hope it will be declared
@@ -257,13 +255,10 @@ void set_node_namespace(XMQParseState *state, xmlNodePtr node, const char *node_
         free(state->element_namespace);
         state->element_namespace = NULL;
     }
-    else if (state->default_namespace)
+    else
     {
-        // We have a default namespace.
-        xmlNsPtr ns = (xmlNsPtr)state->default_namespace;
-        assert(ns->prefix == NULL);
-        debug("[XMQ] set default namespace with href=%s for element %s\n", ns->href, node_name);
-        xmlSetNs(node, ns);
+        // Use the default namespace, if there is one.
+        xmlSetNs(node, xml_find_default_namespace(node));
     }
 }
 
@@ -1597,7 +1592,7 @@ void json_print_doctype_node(XMQPrintState *ps, xmlNodePtr node)
     xmlBuffer *buffer = xmlBufferCreate();
     xmlNodeDump(buffer, (xmlDocPtr)ps->doq->docptr_.xml, node, 0, 0);
     char *c = (char*)xmlBufferContent(buffer);
-    char *quoted_value = xmq_quote_as_c(c+10, c+strlen(c)-1, true);
+    char *quoted_value = xmq_quote_as_json(c+10, c+strlen(c)-1, true);
     print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
     free(quoted_value);
     xmlBufferFree(buffer);
diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index 368d606..d6e8724 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -51,10 +51,46 @@ xmlAttr *xml_get_attribute(xmlNode *node, const char *name)
     return xmlHasProp(node, (const xmlChar*)name);
 }
 
+// A prefix which has been used, but never declared, has a namespace without href. Skip these.
+static xmlNs *xml_declared_namespace(xmlNs *ns)
+{
+    while (ns && !ns->href) ns = ns->next;
+    return ns;
+}
+
 xmlNs *xml_first_namespace_def(xmlNode *node)
 {
     if (node->type != XML_ELEMENT_NODE) return NULL;
-    return node->nsDef;
+    return xml_declared_namespace(node->nsDef);
+}
+
+xmlNs *xml_get_namespace_def(xmlNode *node, const char *prefix)
+{
+    for (xmlNs *ns = node->nsDef; ns; ns = ns->next)
+    {
+        if (xmlStrEqual(ns->prefix, (const xmlChar*)prefix)) return ns;
+    }
+    return NULL;
+}
+
+xmlNs *xml_find_namespace(xmlNode *node, const char *prefix)
+{
+    // Unlike xmlSearchNs this also finds a namespace which has not yet been given its href.
+    for (xmlNode *n = node; n && n->type == XML_ELEMENT_NODE; n = n->parent)
+    {
+        xmlNs *ns = xml_get_namespace_def(n, prefix);
+        if (ns) return ns;
+    }
+    if (!prefix) return NULL;
+    return xmlSearchNs(node->doc, node, (const xmlChar*)prefix);
+}
+
+xmlNs *xml_find_default_namespace(xmlNode *node)
+{
+    xmlNs *ns = xml_find_namespace(node, NULL);
+    // The declaration xmlns='' means no namespace.
+    if (ns && (!ns->href || !ns->href[0])) return NULL;
+    return ns;
 }
 
 bool xml_non_empty_namespace(xmlNs *ns)
@@ -71,7 +107,7 @@ bool xml_non_empty_namespace(xmlNs *ns)
 
 bool xml_has_non_empty_namespace_defs(xmlNode *node)
 {
-    xmlNs *ns = node->nsDef;
+    xmlNs *ns = xml_first_namespace_def(node);
     if (ns) return true;
     /*!= NULL)
     while (ns)
@@ -85,7 +121,7 @@ bool xml_has_non_empty_namespace_defs(xmlNode *node)
 
 xmlNs *xml_next_namespace_def(xmlNs *ns)
 {
-    return ns->next;
+    return xml_declared_namespace(ns->next);
 }
 
 const char*xml_element_name(xmlNode *node)
diff --git a/src/main/c/parts/xml.h b/src/main/c/parts/xml.h
index 513a84d..5452231 100644
--- a/src/main/c/parts/xml.h
+++ b/src/main/c/parts/xml.h
@@ -37,6 +37,9 @@ xmlAttr *xml_next_attribute(xmlAttr *attr);
 xmlAttr *xml_get_attribute(xmlNode *node, const char *name);
 xmlNs *xml_first_namespace_def(xmlNode *node);
 xmlNs *xml_next_namespace_def(xmlNs *ns);
+xmlNs *xml_get_namespace_def(xmlNode *node, const char *prefix);
+xmlNs *xml_find_namespace(xmlNode *node, const char *prefix);
+xmlNs *xml_find_default_namespace(xmlNode *node);
 bool xml_non_empty_namespace(xmlNs *ns);
 bool xml_has_non_empty_namespace_defs(xmlNode *node);
 const char*xml_element_name(xmlNode *node);
diff --git a/src/main/c/parts/xmq_internals.h b/src/main/c/parts/xmq_internals.h
index cb6f439..ee98e00 100644
--- a/src/main/c/parts/xmq_internals.h
+++ b/src/main/c/parts/xmq_internals.h
@@ -295,6 +295,7 @@ struct XMQParseState
     Stack *element_stack; // Top is last created node
     void *element_last; // Last added sibling to stack top node.
     bool parsing_doctype; // True when parsing a doctype.
+    char *doctype_content; // The parts found so far of a compound doctype.
     void *add_pre_node_before; // Used when retrofitting pre-root comments and doctype found in json.
     bool root_found; // Used to decide if _// should be printed before or after root.
     void *add_post_node_after; // Used when retrofitting post-root comments found in json.
@@ -313,7 +314,7 @@ struct XMQParseState
     bool declaring_xmlns; // Set to true when the xmlns declaration is found, the next attr value will be a href
     void *declaring_xmlns_namespace; // The namespace to be updated with attribute value, eg. xmlns=uri or xmlns:prefix=uri
 
-    void *default_namespace; // If xmlns=http... has been set, then a pointer to the namespace object is stored here.
+    bool declaring_xmlns_more; // Set to true when the first part of the href has been found, more parts are appended.
 
     // These are used for better error reporting.
     const char *last_body_start;
@@ -613,7 +614,7 @@ void print_color_pre(XMQPrintState *ps, XMQColor c);
 void print_comment_line(XMQPrintState *ps, const char *start, const char *stop, bool compact);
 void print_comment_lines(XMQPrintState *ps, const char *start, const char *stop, bool compact);
 void print_nl_and_indent(XMQPrintState *ps, const char *prefix, const char *postfix);
-void print_quote_lines_and_color_uwhitespace(XMQPrintState *ps, XMQColor c, const char *start, const char *stop);
+void print_quote_lines_and_color_uwhitespace(XMQPrintState *ps, XMQColor c, const char *start, const char *stop, bool surrounded_by_nls);
 void print_quoted_spaces(XMQPrintState *ps, XMQColor c, int n);
 void print_quotes(XMQPrintState *ps, size_t num, XMQColor c);
 void print_slashes(XMQPrintState *ps, const char *pre, const char *post, size_t n);
diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 7b397be..158027c 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -401,14 +401,25 @@ void print_doctype(XMQPrintState *ps, xmlNode *node)
     char *c = (char*)xmlBufferContent(buffer);
     if (ps->output_settings->compact)
     {
-        size_t n = strlen(c);
-        char *end = c+n;
-        for (char *i = c; i < end; ++i)
+        // The newlines between the declarations can be replaced, but not those inside
+        // a quoted value, a comment or a processing instruction.
+        const char *until = NULL;
+        for (char *i = c; *i; ++i)
         {
-            if (*i == '\n') *i = ' ';
+            if (until)
+            {
+                if (!strncmp(i, until, strlen(until))) until = NULL;
+            }
+            else if (*i == '\'') until = "'";
+            else if (*i == '"') until = "\"";
+            else if (!strncmp(i, "<!--", 4)) until = "-->";
+            else if (!strncmp(i, "<?", 2)) until = "?>";
+            else if (*i == '\n') *i = ' ';
         }
     }
-    print_value_internal_text(ps, c+10, c+strlen(c)-1, LEVEL_ELEMENT_VALUE);
+    xmlNode *text = xmlNewDocTextLen(node->doc, (const xmlChar*)c+10, strlen(c)-11);
+    print_value(ps, text, LEVEL_ELEMENT_VALUE);
+    xmlFreeNode(text);
     xmlBufferFree(buffer);
 }
 
@@ -899,7 +910,10 @@ void print_namespace_declaration(XMQPrintState *ps, xmlNs *ns, size_t align)
 
         if (!ps->output_settings->compact) print_white_spaces(ps, 1);
 
-        print_value_internal_text(ps, v, NULL, LEVEL_ATTR_VALUE);
+        // A detached text node, since the printer works on nodes.
+        xmlNodePtr n = xmlNewDocText(NULL, (const xmlChar*)v);
+        print_value(ps, n, LEVEL_ATTR_VALUE);
+        xmlFreeNode(n);
     }
 }
 
@@ -935,7 +949,8 @@ void print_attributes(XMQPrintState *ps,
 void print_quote_lines_and_color_uwhitespace(XMQPrintState *ps,
                                              XMQColor color,
                                              const char *start,
-                                             const char *stop)
+                                             const char *stop,
+                                             bool surrounded_by_nls)
 {
     XMQOutputSettings *os = ps->output_settings;
     XMQWrite write = os->content.write;
@@ -951,7 +966,8 @@ void print_quote_lines_and_color_uwhitespace(XMQPrintState *ps,
     else ps->restart_line = NULL;
 
     // We are leading with a newline, print an extra into the quote, which will be trimmed away during parse.
-    if (*start == '\n')
+    // Unless the quote already starts with such a newline.
+    if (*start == '\n' && !surrounded_by_nls)
     {
         print_nl(ps, pre, post);
     }
@@ -978,7 +994,8 @@ void print_quote_lines_and_color_uwhitespace(XMQPrintState *ps,
         }
     }
     // We are ending with a newline, print an extra into the quote, which will be trimmed away during parse.
-    if (*(stop-1) == '\n')
+    // Unless the quote already ends with such a newline.
+    if (*(stop-1) == '\n' && !surrounded_by_nls)
     {
         ps->line_indent--;
         if (!all_newlines)
@@ -1080,7 +1097,8 @@ void print_safe_leaf_quote(XMQPrintState *ps,
     print_quote_lines_and_color_uwhitespace(ps,
                                             c,
                                             start,
-                                            stop);
+                                            stop,
+                                            add_nls);
 
     if (!add_nls)
     {
@@ -1346,6 +1364,9 @@ bool quote_needs_compounded(XMQPrintState *ps, const char *start, const char *st
         if (*start == '\t') return false;
     }
 
+    // More than one quote becomes several &apos; entities.
+    if (start < stop && has_all_quotes(start, stop)) return true;
+
     size_t only_leading_newlines = 0;
     const char *ls = has_leading_space_nl(start, stop, &only_leading_newlines);
     if (ls != NULL && only_leading_newlines == 0) return true;
diff --git a/src/main/c/parts/xmq_printer.h b/src/main/c/parts/xmq_printer.h
index 4c738c9..185bd58 100644
--- a/src/main/c/parts/xmq_printer.h
+++ b/src/main/c/parts/xmq_printer.h
@@ -87,7 +87,8 @@ void print_attributes(XMQPrintState *ps, xmlNodePtr node);
 void print_quote_lines_and_color_uwhitespace(XMQPrintState *ps,
                                              XMQColor color,
                                              const char *start,
-                                             const char *stop);
+                                             const char *stop,
+                                             bool surrounded_by_nls);
 void print_safe_leaf_quote(XMQPrintState *ps,
                            XMQColor c,
                            const char *start,
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index b703db0..40b1caf 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -64,7 +64,9 @@ void copy_quote_settings_from_output_settings(XMQQuoteSettings *qs, XMQOutputSet
 void add_pi_content(XMQParseState *state, const char *content);
 xmlNodePtr create_entity(XMQParseState *state, size_t l, size_t c, const char *cstart, const char *cstop, const char*stop, xmlNodePtr parent);
 void create_node(XMQParseState *state, const char *start, const char *stop);
-void update_namespace_href(XMQParseState *state, xmlNsPtr ns, const char *start, const char *stop);
+void update_namespace_href(XMQParseState *state, const char *start, const char *stop);
+void finish_namespace_href(XMQParseState *state);
+void end_ns_declaration(XMQParseState *state);
 xmlNodePtr create_quote(XMQParseState *state, size_t l, size_t col, const char *start, const char *stop, const char *suffix,  xmlNodePtr parent);
 void debug_content_comment(XMQParseState *state, size_t line, size_t start_col, const char *start, const char *stop, const char *suffix);
 void debug_content_value(XMQParseState *state, size_t line, size_t start_col, const char *start, const char *stop, const char *suffix);
@@ -1804,6 +1806,9 @@ void xmqFreeParseState(XMQParseState *state)
     // Settings are not freed here.
     state->output_settings = NULL;
 
+    free(state->doctype_content);
+    state->doctype_content = NULL;
+
     if (state->yaep_tmp_rhs_) free(state->yaep_tmp_rhs_);
     state->yaep_tmp_rhs_ = NULL;
     if (state->yaep_tmp_transl_) free(state->yaep_tmp_transl_);
@@ -1992,6 +1997,13 @@ xmlNodePtr create_quote(XMQParseState *state,
     size_t indent = col - 1;
     char *trimmed = (state->no_trim_quotes)?strndup(start, stop-start):xmq_un_quote(indent, ' ', start, stop, true);
     check_malloc(trimmed);
+    if (state->declaring_xmlns)
+    {
+        // A namespace declaration has no children, only a href.
+        update_namespace_href(state, trimmed, NULL);
+        free(trimmed);
+        return parent;
+    }
     xmlNodePtr n = xmlNewDocText(state->doq->docptr_.xml, (const xmlChar *)trimmed);
     if (state->merge_text)
     {
@@ -2038,6 +2050,8 @@ void add_pi_content(XMQParseState *state, const char *content)
     if (*content) xmlNodeAddContent((xmlNodePtr)state->pi_node, (const xmlChar *)content);
 }
 
+void add_doctype_content(XMQParseState *state, const char *content);
+
 xmlNodePtr create_entity(XMQParseState *state,
                          size_t l,
                          size_t c,
@@ -2052,7 +2066,7 @@ xmlNodePtr create_entity(XMQParseState *state,
     if (tmp[1] == '#')
     {
         // Character entity.
-        if (!state->merge_text)
+        if (!state->merge_text && !state->declaring_xmlns && !state->parsing_pi && !state->parsing_doctype)
         {
             // Do not merge with surrounding text.
             n = xmlNewCharRef(state->doq->docptr_.xml, (const xmlChar *)tmp);
@@ -2089,6 +2103,19 @@ xmlNodePtr create_entity(XMQParseState *state,
         xmlFreeNode(n);
         n = parent;
     }
+    else if (state->parsing_doctype)
+    {
+        add_doctype_content(state, n->type == XML_TEXT_NODE ? (const char*)n->content : tmp);
+        xmlFreeNode(n);
+        n = parent;
+    }
+    else if (state->declaring_xmlns)
+    {
+        // A namespace declaration has no children, only a href.
+        update_namespace_href(state, n->type == XML_TEXT_NODE ? (const char*)n->content : tmp, NULL);
+        xmlFreeNode(n);
+        n = parent;
+    }
     else
     {
         n = xmlAddChild(parent, n);
@@ -2203,6 +2230,48 @@ void do_element_value_text(XMQParseState *state,
     }
 }
 
+// Append to the content of the compound doctype being parsed.
+void add_doctype_content(XMQParseState *state, const char *content)
+{
+    size_t n = state->doctype_content ? strlen(state->doctype_content) : 0;
+    char *c = (char*)realloc(state->doctype_content, n+strlen(content)+1);
+    check_malloc(c);
+    strcpy(c+n, content);
+    state->doctype_content = c;
+}
+
+static bool create_doctype(XMQParseState *state, const char *content)
+{
+    // "<!DOCTYPE "=10  ">"=1 NULL=1
+    size_t tn = strlen(content);
+    size_t n = tn+10+1+12;
+    char *buf = (char*)malloc(n);
+    check_malloc(buf);
+    strcpy(buf, "<!DOCTYPE ");
+    memcpy(buf+10, content, tn);
+    memcpy(buf+10+tn, "><foo></foo>", 12);
+    buf[n-1] = 0;
+    xmlDtdPtr dtd = parse_doctype_raw(state->doq, buf, buf+n-1);
+    free(buf);
+    if (!dtd) return false;
+
+    state->doq->docptr_.xml->intSubset = dtd;
+    if (state->add_pre_node_before)
+    {
+        // Insert doctype before this node.
+        xmlAddPrevSibling((xmlNodePtr)state->add_pre_node_before, (xmlNodePtr)dtd);
+    }
+    else
+    {
+        // Append doctype to document.
+        xmlNodePtr parent = (xmlNode*)state->element_stack->top->data;
+        xmlAddChild(parent, (xmlNodePtr)dtd);
+    }
+    state->parsing_doctype = false;
+    state->doctype_found = true;
+    return true;
+}
+
 void do_element_value_quote(XMQParseState *state,
                             size_t line,
                             size_t col,
@@ -2221,36 +2290,12 @@ void do_element_value_quote(XMQParseState *state,
     }
     else if (state->parsing_doctype)
     {
-        // "<!DOCTYPE "=10  ">"=1 NULL=1
-        size_t tn = strlen(trimmed);
-        size_t n = tn+10+1+12;
-        char *buf = (char*)malloc(n);
-        strcpy(buf, "<!DOCTYPE ");
-        memcpy(buf+10, trimmed, tn);
-        memcpy(buf+10+tn, "><foo></foo>", 12);
-        buf[n-1] = 0;
-        xmlDtdPtr dtd = parse_doctype_raw(state->doq, buf, buf+n-1);
-        free(buf);
-        if (!dtd)
+        if (!create_doctype(state, trimmed))
         {
             free(trimmed);
             state->error_nr = XMQ_ERROR_BAD_DOCTYPE;
             longjmp(state->error_handler, 1);
         }
-        state->doq->docptr_.xml->intSubset = dtd;
-        if (state->add_pre_node_before)
-        {
-            // Insert doctype before this node.
-            xmlAddPrevSibling((xmlNodePtr)state->add_pre_node_before, (xmlNodePtr)dtd);
-        }
-        else
-        {
-            // Append doctype to document.
-            xmlNodePtr parent = (xmlNode*)state->element_stack->top->data;
-            xmlAddChild(parent, (xmlNodePtr)dtd);
-        }
-        state->parsing_doctype = false;
-        state->doctype_found = true;
     }
     else
     {
@@ -2267,6 +2312,12 @@ void do_element_value_entity(XMQParseState *state,
                              const char *stop,
                              const char *suffix)
 {
+    if (state->parsing_doctype)
+    {
+        // A single entity is not a doctype.
+        state->error_nr = XMQ_ERROR_BAD_DOCTYPE;
+        longjmp(state->error_handler, 1);
+    }
     create_entity(state, line, col, start, stop, suffix, (xmlNode*)state->element_last);
 }
 
@@ -2285,6 +2336,14 @@ void do_element_value_compound_quote(XMQParseState *state,
         free(trimmed);
         return;
     }
+    if (state->parsing_doctype)
+    {
+        char *trimmed = (state->no_trim_quotes)?strndup(start, stop-start):xmq_un_quote(col-1, ' ', start, stop, true);
+        check_malloc(trimmed);
+        add_doctype_content(state, trimmed);
+        free(trimmed);
+        return;
+    }
     do_quote(state, line, col, start, stop, suffix);
 }
 
@@ -2295,7 +2354,7 @@ void do_element_value_compound_entity(XMQParseState *state,
                                       const char *stop,
                                       const char *suffix)
 {
-    if (state->parsing_pi)
+    if (state->parsing_pi || state->parsing_doctype)
     {
         create_entity(state, line, col, start, stop, suffix, NULL);
         return;
@@ -2325,6 +2384,13 @@ void do_attr_ns(XMQParseState *state,
     }
 }
 
+void end_ns_declaration(XMQParseState *state)
+{
+    state->declaring_xmlns = false;
+    state->declaring_xmlns_more = false;
+    state->declaring_xmlns_namespace = NULL;
+}
+
 void do_ns_declaration(XMQParseState *state,
                        size_t line,
                        size_t col,
@@ -2337,76 +2403,43 @@ void do_ns_declaration(XMQParseState *state,
     // We can see the difference here since the parser will invoke with suffix
     // either pointing to stop (xmlns=) or after stop (xmlns:foo=)
     xmlNodePtr element = (xmlNode*)state->element_stack->top->data;
-    xmlNsPtr ns = NULL;
-    if (stop == suffix)
-    {
-        // Stop is the same as suffix, so no prefix has been added.
-        // I.e. this is a default namespace, eg: xmlns=uri
-        ns = xmlNewNs(element,
-                      NULL,
-                      NULL);
-        debug("xmq=", "create default namespace in element %s", element->name);
-        if (!ns)
-        {
-            // Oups, this element already has a default namespace.
-            // This is probably due to multiple xmlns=uri declarations. Is this an error or not?
-            xmlNsPtr *list = xmlGetNsList(state->doq->docptr_.xml,
-                                          element);
-            for (int i = 0; list[i]; ++i)
-            {
-                if (!list[i]->prefix)
-                {
-                    ns = list[i];
-                    break;
-                }
-            }
-            free(list);
-        }
-        if (element->ns == NULL)
+    // If stop is the same as suffix, then no prefix has been added.
+    // Otherwise stop points to the colon, suffix points to = and the prefix starts at stop+1.
+    char *prefix = NULL;
+    if (stop != suffix)
+    {
+        prefix = strndup(stop+1, suffix-(stop+1));
+        check_malloc(prefix);
+    }
+
+    // The namespace might already have been created, due to multiple declarations, or due to
+    // the namespace prefix of the element itself, eg: abc:element(xmlns:abc = uri)
+    xmlNsPtr ns = xml_get_namespace_def(element, prefix);
+    if (!ns) ns = xmlNewNs(element, NULL, (const xmlChar*)prefix);
+
+    if (ns)
+    {
+        // The declaration applies to the element itself and to the attributes already found.
+        if (element->ns ? xmlStrEqual(element->ns->prefix, ns->prefix) : !prefix)
         {
-            debug("xmq=", "set default namespace in element %s prefix=%s href=%s", element->name, ns->prefix, ns->href);
+            debug("xmq=", "set namespace in element %s prefix=%s", element->name, ns->prefix);
             xmlSetNs(element, ns);
         }
-        state->default_namespace = ns;
-    }
-    else
-    {
-        // This a new namespace with a prefix. xmlns:prefix=uri
-        // Stop points to the colon, suffix points to =.
-        // The prefix starts at stop+1.
-        size_t len = suffix-(stop+1);
-        char *name = strndup(stop+1, len);
-        check_malloc(name);
-        ns = xmlNewNs(element,
-                      NULL,
-                      (const xmlChar *)name);
-
-        if (!ns)
+        for (xmlAttrPtr a = element->properties; prefix && a; a = a->next)
         {
-            // Oups, this namespace has already been created, for example due to the namespace prefix
-            // of the element itself, eg: abc:element(xmlns:abc = uri)
-            // Lets pick this ns up and reuse it.
-            xmlNsPtr *list = xmlGetNsList(state->doq->docptr_.xml,
-                                          element);
-            for (int i = 0; list[i]; ++i)
-            {
-                if (list[i]->prefix && !strcmp((char*)list[i]->prefix, name))
-                {
-                    ns = list[i];
-                    break;
-                }
-            }
-            free(list);
+            if (a->ns && xmlStrEqual(a->ns->prefix, ns->prefix)) a->ns = ns;
         }
-        free(name);
     }
+    free(prefix);
 
     if (!ns)
     {
-        fprintf(stderr, "Internal error: expected namespace to be created/found.\n");
-        assert(ns);
+        // Such a namespace cannot be declared, eg xmlns:xml=...
+        state->error_nr = XMQ_ERROR_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
     }
     state->declaring_xmlns = true;
+    state->declaring_xmlns_more = false;
     state->declaring_xmlns_namespace = ns;
 }
 
@@ -2422,6 +2455,7 @@ void do_attr_key(XMQParseState *state,
     memcpy(key, start, n);
     key[n] = 0;
 
+    end_ns_declaration(state);
     xmlNodePtr parent = (xmlNode*)state->element_stack->top->data;
     xmlAttrPtr attr = NULL;
 
@@ -2432,9 +2466,7 @@ void do_attr_key(XMQParseState *state,
     }
     else
     {
-        xmlNsPtr ns = xmlSearchNs(state->doq->docptr_.xml,
-                                  parent,
-                                  (const xmlChar *)state->attribute_namespace);
+        xmlNsPtr ns = xml_find_namespace(parent, state->attribute_namespace);
         if (!ns)
         {
             // The namespaces does not yet exist. Lets create it.. Lets hope it will be declared
@@ -2456,26 +2488,34 @@ void do_attr_key(XMQParseState *state,
 }
 
 void update_namespace_href(XMQParseState *state,
-                           xmlNsPtr ns,
                            const char *start,
                            const char *stop)
 {
+    xmlNsPtr ns = (xmlNsPtr)state->declaring_xmlns_namespace;
     if (!stop) stop = start+strlen(start);
 
-    char *href = strndup(start, stop-start);
+    // The href of a compound value comes in several parts.
+    xmlChar *href = NULL;
+    if (state->declaring_xmlns_more && ns->href) href = xmlStrdup(ns->href);
+    href = xmlStrncat(href, (const xmlChar*)start, stop-start);
+    if (!href) href = xmlStrdup((const xmlChar*)"");
     check_malloc(href);
     if (ns->href) xmlFree((xmlChar*)ns->href);
-    ns->href = (const xmlChar*)href;
+    ns->href = href;
+    state->declaring_xmlns_more = true;
     debug("xmq=", "update namespace prefix=%s with href=%s", ns->prefix, href);
+}
 
-    if (start == stop && ns == state->default_namespace)
+void finish_namespace_href(XMQParseState *state)
+{
+    xmlNsPtr ns = (xmlNsPtr)state->declaring_xmlns_namespace;
+    xmlNodePtr element = (xmlNode*)state->element_stack->top->data;
+    if (!ns->prefix && ns->href && !ns->href[0] && element->ns == ns)
     {
-        xmlNodePtr element = (xmlNode*)state->element_stack->top->data;
         debug("xmq=", "remove default namespace in element %s", element->name);
         xmlSetNs(element, NULL);
-        state->default_namespace = NULL;
-        return;
     }
+    end_ns_declaration(state);
 }
 
 void do_attr_value_text(XMQParseState *state,
@@ -2487,11 +2527,8 @@ void do_attr_value_text(XMQParseState *state,
 {
     if (state->declaring_xmlns)
     {
-        assert(state->declaring_xmlns_namespace);
-
-        update_namespace_href(state, (xmlNsPtr)state->declaring_xmlns_namespace, start, stop);
-        state->declaring_xmlns = false;
-        state->declaring_xmlns_namespace = NULL;
+        update_namespace_href(state, start, stop);
+        finish_namespace_href(state);
         return;
     }
     xmlNodePtr n = xmlNewDocTextLen(state->doq->docptr_.xml, (const xmlChar *)start, stop-start);
@@ -2505,17 +2542,8 @@ void do_attr_value_quote(XMQParseState*state,
                          const char *stop,
                          const char *suffix)
 {
-    if (state->declaring_xmlns)
-    {
-        char *trimmed = (state->no_trim_quotes)?strndup(start, stop-start):xmq_un_quote(col-1, ' ', start, stop, true);
-        check_malloc(trimmed);
-        update_namespace_href(state, (xmlNsPtr)state->declaring_xmlns_namespace, trimmed, NULL);
-        state->declaring_xmlns = false;
-        state->declaring_xmlns_namespace = NULL;
-        free(trimmed);
-        return;
-    }
     create_quote(state, line, col, start, stop, suffix, (xmlNode*)state->element_last);
+    if (state->declaring_xmlns) finish_namespace_href(state);
 }
 
 void do_attr_value_entity(XMQParseState *state,
@@ -2526,6 +2554,7 @@ void do_attr_value_entity(XMQParseState *state,
                           const char *suffix)
 {
     create_entity(state, line, col, start, stop, suffix, (xmlNode*)state->element_last);
+    if (state->declaring_xmlns) finish_namespace_href(state);
 }
 
 void do_attr_value_compound_quote(XMQParseState *state,
@@ -2596,9 +2625,7 @@ void create_node(XMQParseState *state, const char *start, const char *stop)
         if (state->element_namespace)
         {
             // Have a namespace before the element name, eg abc:work
-            xmlNsPtr ns = xmlSearchNs(state->doq->docptr_.xml,
-                                      new_node,
-                                      (const xmlChar *)state->element_namespace);
+            xmlNsPtr ns = xml_find_namespace(new_node, state->element_namespace);
             if (!ns)
             {
                 // The namespaces does not yet exist. Lets hope it will be declared
@@ -2613,13 +2640,10 @@ void create_node(XMQParseState *state, const char *start, const char *stop)
             free(state->element_namespace);
             state->element_namespace = NULL;
         }
-        else if (state->default_namespace)
+        else
         {
-            // We have a default namespace.
-            xmlNsPtr ns = (xmlNsPtr)state->default_namespace;
-            assert(ns->prefix == NULL);
-            debug("xmq=", "set default namespace with href=%s for element %s", ns->href, name);
-            xmlSetNs(new_node, ns);
+            // Use the default namespace, if there is one.
+            xmlSetNs(new_node, xml_find_default_namespace(new_node));
         }
 
         state->element_last = new_node;
@@ -2659,6 +2683,11 @@ void do_element_name(XMQParseState *state,
     create_node(state, start, stop);
     // No equals, no content.
     state->parsing_pi = false;
+    if (state->parsing_doctype)
+    {
+        state->error_nr = XMQ_ERROR_BAD_DOCTYPE;
+        longjmp(state->error_handler, 1);
+    }
 }
 
 void do_element_key(XMQParseState *state,
@@ -2718,6 +2747,7 @@ void do_apar_right(XMQParseState *state,
                   const char *suffix)
 {
     state->element_last = stack_pop(state->element_stack);
+    end_ns_declaration(state);
 }
 
 void do_cpar_left(XMQParseState *state,
@@ -2738,6 +2768,17 @@ void do_cpar_right(XMQParseState *state,
                    const char *suffix)
 {
     state->element_last = stack_pop(state->element_stack);
+    if (state->declaring_xmlns) finish_namespace_href(state);
+    if (state->parsing_doctype)
+    {
+        if (!create_doctype(state, state->doctype_content ? state->doctype_content : ""))
+        {
+            state->error_nr = XMQ_ERROR_BAD_DOCTYPE;
+            longjmp(state->error_handler, 1);
+        }
+        free(state->doctype_content);
+        state->doctype_content = NULL;
+    }
 }
 
 void xmq_setup_parse_callbacks(XMQParseCallbacks *callbacks)
-- 
2.43.0


From 5f82526216fd0244c526df2c349623cbc79b27bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 44/63] fix: accept xml with an html root when told to expect
 xml

---
 src/main/c/xmq.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 40b1caf..2587768 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4241,6 +4241,10 @@ bool xmqParseBufferWithType(XMQDoc *doq,
                 // This is fine! We might be loading a fragment of html
                 // that is detected as xml.
             }
+            else if (detected_ct == XMQ_CONTENT_HTML && ct == XMQ_CONTENT_XML)
+            {
+                // This is fine too! The root of this xml, or its doctype, is named html.
+            }
             else
             {
                 switch (ct) {
-- 
2.43.0


From 1a172e03e283f2004903d1e656f9cdab241e3354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 45/63] fix: a comment that ends with a dash or contains */ can
 be read back

---
 src/main/c/parts/xmq_printer.c | 10 +++++++++-
 src/main/c/xmq.c               |  5 +++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 158027c..ee934ee 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -269,7 +269,15 @@ void print_comment_node(XMQPrintState *ps, xmlNode *node)
     {
         if (ps->output_settings->compact)
         {
-            print_utf8(ps, COLOR_comment, 3, "/*", NULL, start, stop, "*/", NULL);
+            if (count_necessary_slashes(start, stop) > 1)
+            {
+                // The comment contains */ which needs more slashes.
+                print_comment_lines(ps, start, stop, true);
+            }
+            else
+            {
+                print_utf8(ps, COLOR_comment, 3, "/*", NULL, start, stop, "*/", NULL);
+            }
             ps->last_char = '/';
         }
         else
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 2587768..534ebe5 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -3306,11 +3306,12 @@ void xmqMergeHexCharEntities(XMQDoc *doq)
 char *escape_xml_comment(const char *comment)
 {
     // The escape char is ␐ which is utf8 0xe2 0x90 0x90
+    // A comment can neither contain -- nor end with a -
     size_t escapes = 0;
     const char *i = comment;
     for (; *i; ++i)
     {
-        if (*i == '-' && ( *(i+1) == '-' ||
+        if (*i == '-' && ( *(i+1) == '-' || *(i+1) == 0 ||
                            (*(const unsigned char*)(i+1) == 0xe2 &&
                             *(const unsigned char*)(i+2) == 0x90 &&
                             *(const unsigned char*)(i+3) == 0x90)))
@@ -3331,7 +3332,7 @@ char *escape_xml_comment(const char *comment)
     for (; *i; ++i)
     {
         *j++ = *i;
-        if (*i == '-' && ( *(i+1) == '-' ||
+        if (*i == '-' && ( *(i+1) == '-' || *(i+1) == 0 ||
                            (*(const unsigned char*)(i+1) == 0xe2 &&
                             *(const unsigned char*)(i+2) == 0x90 &&
                             *(const unsigned char*)(i+3) == 0x90)))
-- 
2.43.0


From cea06afd37696b33e42336822a62eb3c0c56721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 46/63] fix: keep the spaces at the end of a line inside a
 quote

---
 src/main/c/parts/xmq_printer.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index ee934ee..4d214c3 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1113,7 +1113,8 @@ void print_safe_leaf_quote(XMQPrintState *ps,
         ps->line_indent = old_line_indent;
     }
 
-    if (add_nls)
+    // Spaces at the end of the last line would be trimmed if they were followed by a newline.
+    if (add_nls && *(stop-1) != ' ' && *(stop-1) != '\t')
     {
         print_nl_and_indent(ps, NULL, NULL);
     }
@@ -1140,6 +1141,12 @@ const char *find_next_line_end(XMQPrintState *ps, const char *start, const char
     return i;
 }
 
+// The parser trims the spaces and tabs before a newline inside a quote, such a newline has to be escaped.
+static bool ends_line_after_space(const char *i)
+{
+    return *i == '\n' && (*(i-1) == ' ' || *(i-1) == '\t');
+}
+
 const char *find_next_char_that_needs_escape(XMQPrintState *ps, const char *start, const char *stop)
 {
     bool compact = ps->output_settings->compact;
@@ -1168,6 +1175,7 @@ const char *find_next_char_that_needs_escape(XMQPrintState *ps, const char *star
         if (non7bit && c > 126) break;
         if (c < 32 && c != '\t' && c != '\n') break;
         if (c == '\t' && escape_tabs) break;
+        if (i > start && ends_line_after_space(i)) break;
         i++;
     }
 
@@ -1278,6 +1286,7 @@ void print_value_internal_text(XMQPrintState *ps, const char *start, const char
     for (const char *from = start; from < stop; )
     {
         const char *to = find_next_char_that_needs_escape(ps, from, stop);
+        if (from > start && ends_line_after_space(from)) to = from;
         if (from == to)
         {
             check_space_before_entity_node(ps);
@@ -1404,6 +1413,7 @@ bool quote_needs_compounded(XMQPrintState *ps, const char *start, const char *st
         if (non7bit && c > 126) return true;
         if (c < 32 && c != '\t' && c != '\n') return true;
         if (c == '\t' && escape_tabs) return true;
+        if (i > start && ends_line_after_space(i)) return true;
     }
     return false;
 }
-- 
2.43.0


From c83dbaebfeaa721b9ec0cb97dfa976b0de843f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 47/63] fix: print the entities of attributes as json, clines
 and text

---
 src/main/c/parts/json.c |  7 ++---
 src/main/c/parts/xml.c  | 66 +++++++++++++++++++++++++++++++++++++++++
 src/main/c/parts/xml.h  |  2 ++
 src/main/c/xmq.c        | 26 ++++++++++------
 4 files changed, 87 insertions(+), 14 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index a9422d6..e323445 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -1313,14 +1313,11 @@ void json_print_attribute(XMQPrintState *ps, xmlAttr *a)
 
     if (a->children != NULL)
     {
-        char *value = (char*)xmlNodeListGetString(a->doc, a->children, 1);
-        // An entity without known content is kept as a reference.
-        if (!value) value = (char*)xmlNodeListGetString(a->doc, a->children, 0);
-        if (!value) value = (char*)xmlStrdup((const xmlChar*)"");
+        char *value = xml_attr_text(a);
         char *quoted_value = xmq_quote_as_json(value, value+strlen(value), true);
         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
         free(quoted_value);
-        xmlFree(value);
+        free(value);
     }
     else
     {
diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index d6e8724..01fcf85 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -340,6 +340,72 @@ int decode_entity_ref(const char *name)
     return (int)v;
 }
 
+// The text that an entity reference stands for. An entity without known content
+// is kept as the reference is written. The text must be freed.
+char *xml_entity_text(xmlNode *node)
+{
+    const char *name = (const char*)node->name;
+    int uc = decode_entity_ref(name);
+    if (uc)
+    {
+        UTF8Char utf8;
+        size_t n = encode_utf8(uc, &utf8);
+        char *s = strndup(utf8.bytes, n);
+        check_malloc(s);
+        return s;
+    }
+    xmlEntityPtr ent = xmlGetDocEntity(node->doc, node->name);
+    if (ent)
+    {
+        char *s = NULL;
+        if (ent->children)
+        {
+            xmlChar *tmp = xmlNodeListGetString(node->doc, ent->children, 1);
+            if (tmp)
+            {
+                s = strdup((const char*)tmp);
+                check_malloc(s);
+                xmlFree(tmp);
+            }
+        }
+        else if (ent->content)
+        {
+            s = strdup((const char*)ent->content);
+            check_malloc(s);
+        }
+        if (s) return s;
+    }
+    size_t n = strlen(name)+3;
+    char *s = (char*)malloc(n);
+    check_malloc(s);
+    snprintf(s, n, "&%s;", name);
+    return s;
+}
+
+// The value of an attribute, including the text of its entities. The text must be freed.
+char *xml_attr_text(xmlAttr *attr)
+{
+    char *value = strdup("");
+    check_malloc(value);
+    size_t len = 0;
+    for (xmlNode *i = attr->children; i; i = i->next)
+    {
+        char *part = NULL;
+        const char *s = (const char*)i->content;
+        if (i->type == XML_ENTITY_REF_NODE) s = part = xml_entity_text(i);
+        if (s)
+        {
+            size_t n = strlen(s);
+            value = (char*)realloc(value, len+n+1);
+            check_malloc(value);
+            memcpy(value+len, s, n+1);
+            len += n;
+        }
+        free(part);
+    }
+    return value;
+}
+
 void xml_add_root_child(xmlDoc *doc, xmlNode *node)
 {
     // Set the owner, otherwise the node cannot be unlinked from the document.
diff --git a/src/main/c/parts/xml.h b/src/main/c/parts/xml.h
index 5452231..2d0e07e 100644
--- a/src/main/c/parts/xml.h
+++ b/src/main/c/parts/xml.h
@@ -61,6 +61,8 @@ bool is_leaf_node(xmlNode *node);
 bool has_attributes(xmlNodePtr node);
 char *xml_collapse_text(xmlNode *node);
 int decode_entity_ref(const char *name);
+char *xml_entity_text(xmlNode *node);
+char *xml_attr_text(xmlAttr *attr);
 void xml_add_root_child(xmlDoc *doc, xmlNode *node);
 
 #define XML_MODULE
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 534ebe5..10214e7 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2914,9 +2914,9 @@ void text_print_node(XMQPrintState *ps, xmlNode *node)
     }
     else if (is_entity_node(node))
     {
-        const char *name = xml_element_name(node);
-        write(writer_state, "<ENTITY>", NULL);
-        write(writer_state, name, NULL);
+        char *text = xml_entity_text(node);
+        write(writer_state, text, NULL);
+        free(text);
     }
     else if (is_element_node(node))
     {
@@ -2984,7 +2984,18 @@ void cline_print_node(XMQPrintState *ps, xmlNode *node)
         free(q);
         write(writer_state, "\n", NULL);
     }
-    else if (is_entity_node(node) || is_doctype_node(node))
+    else if (is_entity_node(node))
+    {
+        cline_print_xpath(ps, node->parent);
+        char *text = xml_entity_text(node);
+        char *q = xmq_quote_as_c(text, NULL, true);
+        free(text);
+        write(writer_state, "=", NULL);
+        write(writer_state, q, NULL);
+        write(writer_state, "\n", NULL);
+        free(q);
+    }
+    else if (is_doctype_node(node))
     {
         // The children of these are declarations, not content.
     }
@@ -3039,14 +3050,11 @@ void cline_print_attr(XMQPrintState *ps, xmlAttr *a)
 
     if (a->children != NULL)
     {
-        char *value = (char*)xmlNodeListGetString(a->doc, a->children, 1);
-        // An entity without known content is kept as a reference.
-        if (!value) value = (char*)xmlNodeListGetString(a->doc, a->children, 0);
-        if (!value) value = (char*)xmlStrdup((const xmlChar*)"");
+        char *value = xml_attr_text(a);
         char *quoted_value = xmq_quote_as_c(value, value+strlen(value), true);
         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
         free(quoted_value);
-        xmlFree(value);
+        free(value);
     }
     else
     {
-- 
2.43.0


From 7ff050bec1f3a979dcb9eee69105450d9c04a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 48/63] fix: separate and align what is printed after a value
 with spaces, quotes or entities

---
 src/main/c/parts/xmq_printer.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 4d214c3..099421d 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -570,7 +570,7 @@ void print_quoted_spaces(XMQPrintState *ps, XMQColor color, int num)
     {
         write(writer_state, os->explicit_space, NULL);
     }
-    ps->current_indent += num;
+    ps->current_indent += num+2; // The spaces and the surrounding quotes.
     ps->last_char = '\'';
     write(writer_state, "'", NULL);
     if (c && c->quote.post) write(writer_state, c->quote.post, NULL);
@@ -662,7 +662,6 @@ size_t print_char_entity(XMQPrintState *ps, XMQColor color, const char *start, c
         if (post) write(writer_state, post, NULL);
 
         ps->last_char = ';';
-        ps->current_indent += strlen(buf);
     }
     else
     {
@@ -1091,13 +1090,16 @@ void print_safe_leaf_quote(XMQPrintState *ps,
 
     print_quotes(ps, numq, c);
 
-    if (!add_nls)
+    // Spaces at the beginning of the first line would be seen as indentation if they followed a newline.
+    bool leading_nl = add_nls && *start != ' ' && *start != '\t';
+
+    if (!leading_nl)
     {
-        old_line_indent = ps->line_indent;
+        if (!add_nls) old_line_indent = ps->line_indent;
         ps->line_indent = ps->current_indent;
     }
 
-    if (add_nls)
+    if (leading_nl)
     {
         print_nl_and_indent(ps, NULL, NULL);
     }
@@ -1255,6 +1257,8 @@ void print_value_internal_text(XMQPrintState *ps, const char *start, const char
     {
         // This is a key_node text value or an attribute text value, ie key = 123 or color=blue, ie no quoting needed.
         print_utf8(ps, level_to_quote_color(level), 1, start, stop);
+        // The value might end with ; or / or = yet it must be separated from what follows.
+        ps->last_char = 1;
         return;
     }
 
@@ -1384,6 +1388,11 @@ bool quote_needs_compounded(XMQPrintState *ps, const char *start, const char *st
     // More than one quote becomes several &apos; entities.
     if (start < stop && has_all_quotes(start, stop)) return true;
 
+    // Whitespace that is more than just normal spaces also becomes several entities and quotes.
+    bool all_space = false;
+    bool only_newlines = false;
+    if (start < stop && has_all_whitespace(start, stop, &all_space, &only_newlines) && !all_space && !only_newlines) return true;
+
     size_t only_leading_newlines = 0;
     const char *ls = has_leading_space_nl(start, stop, &only_leading_newlines);
     if (ls != NULL && only_leading_newlines == 0) return true;
-- 
2.43.0


From 545257b648376cc2f962512ac07c4632749fcca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 49/63] fix: end a processing instruction after its value

---
 src/main/c/xmq.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 10214e7..6637ef0 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2319,6 +2319,7 @@ void do_element_value_entity(XMQParseState *state,
         longjmp(state->error_handler, 1);
     }
     create_entity(state, line, col, start, stop, suffix, (xmlNode*)state->element_last);
+    state->parsing_pi = false;
 }
 
 void do_element_value_compound_quote(XMQParseState *state,
@@ -2768,6 +2769,7 @@ void do_cpar_right(XMQParseState *state,
                    const char *suffix)
 {
     state->element_last = stack_pop(state->element_stack);
+    state->parsing_pi = false;
     if (state->declaring_xmlns) finish_namespace_href(state);
     if (state->parsing_doctype)
     {
-- 
2.43.0


From 0ef9b57f2f094a4f57abc722b2cb58dd8792169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 50/63] fix: select keeps the matched nodes in document order

---
 src/main/c/xmq-cli.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index deb724b..8f3bc3c 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2273,20 +2273,26 @@ bool cmd_select(XMQCliCommand *command)
     // Moving to the parent might have disturbed the document order.
     xmlXPathNodeSetSort(selected);
 
+    size = selected->nodeNr;
+    xmlNodePtr *unlinked = (xmlNodePtr*)malloc(sizeof(xmlNodePtr)*(size+1));
+    xmlNodePtr *copies = (xmlNodePtr*)malloc(sizeof(xmlNodePtr)*(size+1));
+
     // Copy and unlink in reverse order which means copy unlink deeper nodes first.
-    for(int i = selected->nodeNr-1; i >= 0; i--)
+    for(int i = size-1; i >= 0; i--)
     {
-        xmlNode *n = selected->nodeTab[i];
-        xmlNodePtr new_node = xmlCopyNode(n, 1);
-        xml_add_root_child(new_doc, new_node);
+        unlinked[i] = selected->nodeTab[i];
+        copies[i] = xmlCopyNode(unlinked[i], 1);
+        xmlUnlinkNode(unlinked[i]);
+    }
 
-        xmlUnlinkNode(n);
+    // Add the copies in document order.
+    for(int i = 0; i < size; ++i)
+    {
+        xml_add_root_child(new_doc, copies[i]);
     }
+    free(copies);
 
     // The node sets must not refer to freed nodes, thus free the nodes after the node sets.
-    size = selected->nodeNr;
-    xmlNodePtr *unlinked = (xmlNodePtr*)malloc(sizeof(xmlNodePtr)*(size+1));
-    if (size > 0) memcpy(unlinked, selected->nodeTab, sizeof(xmlNodePtr)*size);
     xmlXPathFreeNodeSet(selected);
 
     xmlXPathFreeObject(objects);
-- 
2.43.0


From d3a657cff71188b0346cbcb586a35b7be8774b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 51/63] fix: the help names the option --no-merge as it is
 accepted

---
 src/main/c/xmq-cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 8f3bc3c..4944bb9 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1651,7 +1651,7 @@ bool cmd_help(XMQCliCommand *cmd)
            "  --help     Display this help and exit.\n"
            "  --license  Print license.\n"
            "  --lines    Assume each input line is a separate document.\n"
-           "  --nomerge  When loading xmq do not merge text quotes and character entities.\n"
+           "  --no-merge When loading xmq do not merge text quotes and character entities.\n"
            "  --root=<name>\n"
            "             Create a root node <name> unless the file starts with a node with this <name> already.\n"
            "  --trim=none|heuristic|exact\n"
-- 
2.43.0


From 87219a6bfca82946f55c6008a7f70a31ad2b8ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 52/63] fix: print an attribute value which starts with an
 empty text

---
 src/main/c/parts/xml.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index 01fcf85..71779ae 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -223,6 +223,7 @@ bool is_single_empty_text_node(xmlNodePtr node)
 {
     if (is_entity_node(node)) return false;
     if (node->type != XML_TEXT_NODE) return false;
+    if (node->prev || node->next) return false;
     const char *c = (const char*)node->content;
     if (c != NULL && *c != 0) return false;
     return true;
-- 
2.43.0


From 383a62e052bc1d14c81a188148146d95ac9837dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 53/63] fix: delete and substitute entities in attribute values
 too

---
 src/main/c/xmq-cli.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 4944bb9..476bbad 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2574,6 +2574,17 @@ void delete_all_entities(XMQDoc *doq, xmlNode *node, const char *entity)
         return;
     }
 
+    for (xmlAttr *a = xml_first_attribute(node); a; a = xml_next_attribute(a))
+    {
+        xmlNode *j = a->children;
+        while (j)
+        {
+            xmlNode *next = j->next; // j might be freed.
+            delete_all_entities(doq, j, entity);
+            j = next;
+        }
+    }
+
     xmlNode *i = node->children;
     while (i)
     {
@@ -2788,6 +2799,17 @@ void substitute_entity(xmlDoc *doc, xmlNode *node, const char *entity, bool only
         return;
     }
 
+    for (xmlAttr *a = xml_first_attribute(node); a; a = xml_next_attribute(a))
+    {
+        xmlNode *j = a->children;
+        while (j)
+        {
+            xmlNode *next = j->next; // j might be freed.
+            substitute_entity(doc, j, entity, only_chars);
+            j = next;
+        }
+    }
+
     xmlNode *i = node->children;
     while (i)
     {
-- 
2.43.0


From dd865e7f68c924b70da858ca92ed1968af94ae2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 54/63] fix: replace an entity by the whole content of a file,
 also with a doctype or nothing in it

---
 src/main/c/xmq-cli.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 476bbad..be97f92 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1037,7 +1037,7 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
         }
 
         // Only replace-entity has content, delete-entity is followed by the next command.
-        if (command->cmd == XMQ_CLI_CMD_REPLACE_ENTITY && command->content == NULL && command->node_content == NULL)
+        if (command->cmd == XMQ_CLI_CMD_REPLACE_ENTITY && command->content == NULL && command->node_doc == NULL)
         {
             command->content = arg;
             return true;
@@ -2675,18 +2675,27 @@ xmlNode *replace_entity(xmlDoc *doc, xmlNode *node, const char *entity, const ch
                 node = new_node;
                 next = node->next;
             }
-            else if (node_content)
+            else
             {
-                xmlNodePtr new_node = xmlCopyNode(node_content, 1);
+                // Insert a copy of every node in the replacement file, but not of its doctype.
+                xmlNodePtr i = node_content;
+                while (i && is_doctype_node(i)) i = i->next;
+                if (!i)
+                {
+                    xmlUnlinkNode(node);
+                    xmlFreeNode(node);
+                    return next;
+                }
+                xmlNodePtr new_node = xmlCopyNode(i, 1);
                 xmlReplaceNode(node, new_node);
                 xmlFreeNode(node);
                 node = new_node;
+                for (i = i->next; i; i = i->next)
+                {
+                    if (!is_doctype_node(i)) node = xmlAddNextSibling(node, xmlCopyNode(i, 1));
+                }
                 next = node->next;
             }
-            else
-            {
-                assert(false);
-            }
         }
         if (node->prev != NULL && is_content_node(node->prev) && is_content_node(node))
         {
@@ -2750,7 +2759,7 @@ bool cmd_replace(XMQCliCommand *command)
     {
         verbose_("xmq=", "replacing entity %s", command->entity);
 
-        if (!command->content && !command->node_content)
+        if (!command->content && !command->node_doc)
         {
             fprintf(stderr, "xmq: replace-entity is missing the content to replace %s with\n", command->entity);
             return false;
-- 
2.43.0


From 868e6378227b88db6fd9781813b9fea0face51ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 55/63] fix: load a doctype with a quote inside a processing
 instruction or a comment

The push parser of libxml2 searches for the end of the internal subset
before it parses it and takes such a quote for the start of a string. Such
a doctype was loaded from XML, but what was saved as XMQ could not be
loaded again.
---
 src/main/c/xmq.c | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 6637ef0..9987660 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4461,26 +4461,10 @@ bool xmqParseFileWithType(XMQDoc *doq,
 
 xmlDtdPtr parse_doctype_raw(XMQDoc *doq, const char *start, const char *stop)
 {
-    size_t n = stop-start;
-    xmlParserCtxtPtr ctxt;
-    xmlDocPtr doc;
-
-    ctxt = xmlCreatePushParserCtxt(NULL, NULL, NULL, 0, NULL);
-    if (ctxt == NULL) {
-        return NULL;
-    }
-
-    xmlParseChunk(ctxt, start, n, 0);
-    xmlParseChunk(ctxt, start, 0, 1);
-
-    doc = ctxt->myDoc;
-    int rc = ctxt->wellFormed;
-    xmlFreeParserCtxt(ctxt);
-
-    if (!rc) {
-        if (doc) xmlFreeDoc(doc);
-        return NULL;
-    }
+    // Parse it in one go. The push parser looks for the end of the internal subset
+    // before it parses it, and is then fooled by a quote inside a processing instruction.
+    xmlDocPtr doc = xmlReadMemory(start, (int)(stop-start), NULL, NULL, 0);
+    if (!doc) return NULL;
 
     xmlDtdPtr dtd = xmlCopyDtd(doc->intSubset);
     xmlFreeDoc(doc);
-- 
2.43.0


From 2f6ccd8296f8e62c65d53f410e10c1b1406930f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 56/63] fix: content of a node whose first child is a doctype,
 and of a namespace node

---
 src/main/c/xmq.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 9987660..5416ecf 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -3923,6 +3923,9 @@ int xmqForeach(XMQDoc *doq, const char *xpath, XMQNodeCallback cb, void *user_da
 
 int xmqForeachRel(XMQDoc *doq, const char *xpath, XMQNodeCallback cb, void *user_data, XMQNode *relative)
 {
+    // A namespace node is no part of the tree, there is nothing relative to it.
+    if (relative && relative->node && ((xmlNodePtr)relative->node)->type == XML_NAMESPACE_DECL) return 0;
+
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(doq);
     xmlXPathContextPtr ctx = xmlXPathNewContext(doc);
     if (!ctx) return 0;
@@ -3971,28 +3974,36 @@ const char *xmqGetName(XMQNode *node)
     return NULL;
 }
 
-const char *xmqGetContent(XMQNode *node)
+/**
+   content_of_first_child: Content of the first child, if the child is a kind of node that has a content.
+   A namespace node has no children (the field is something else) and a doctype has no content.
+*/
+static const char *content_of_first_child(xmlNodePtr p)
 {
-    xmlNodePtr p = node->node;
-    if (p && p->children)
+    if (!p || p->type == XML_NAMESPACE_DECL || !p->children) return NULL;
+
+    switch (p->children->type)
     {
+    case XML_TEXT_NODE:
+    case XML_CDATA_SECTION_NODE:
+    case XML_ENTITY_REF_NODE:
+    case XML_COMMENT_NODE:
+    case XML_PI_NODE:
         return (const char*)p->children->content;
+    default:
+        return NULL;
     }
-    return NULL;
+}
+
+const char *xmqGetContent(XMQNode *node)
+{
+    return content_of_first_child(node->node);
 }
 
 XMQProceed catch_single_content(XMQDoc *doc, XMQNode *node, void *user_data)
 {
     const char **out = (const char **)user_data;
-    xmlNodePtr n = node->node;
-    if (n && n->children)
-    {
-        *out = (const char*)n->children->content;
-    }
-    else
-    {
-        *out = NULL;
-    }
+    *out = content_of_first_child(node->node);
     return XMQ_STOP;
 }
 
-- 
2.43.0


From d5ffb17055c262faa5191b3fa49a1cdad2fec7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 57/63] fix: separate the quotes of a compact quote

---
 src/main/c/xmq.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 5416ecf..e465a11 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -5024,7 +5024,9 @@ char *xmqCompactQuote(const char *content)
     os.content.write = (XMQWrite)(void*)membuffer_append_region;
     os.error.writer_state = os.output_buffer;
     os.error.write = (XMQWrite)(void*)membuffer_append_region;
+    os.indentation_space = " ";
     os.explicit_space = " ";
+    os.explicit_nl = "\n";
     os.explicit_tab = "\t";
 
     XMQPrintState ps;
-- 
2.43.0


From 5e4d51928be08f9706fb7bd386e3120613d9c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:01 +0000
Subject: [PATCH 58/63] fix: a compact quote with many quotes in it stays on
 its line

---
 src/main/c/parts/xmq_printer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 099421d..fa4bf32 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1055,7 +1055,8 @@ void print_safe_leaf_quote(XMQPrintState *ps,
             {
                 // We have a nonzero indentation and number of quotes is 1 or 3.
                 // Then the actual source indentation will be +1 or +3.
-                if (numq < 4)
+                // In compact form there are no newlines, neither inside nor around the quote.
+                if (numq < 4 || ps->output_settings->compact)
                 {
                     // e.g. quote at 4 will have source at 5.
                     // |    'alfa beta
-- 
2.43.0


From fd15e0376673e78e568e335b19356c428959d49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:05 +0000
Subject: [PATCH 59/63] fix: stop when out of memory in the names of a grammar
 and in a parameter

---
 src/main/c/parts/ixml.c | 18 ++++++++++++++++--
 src/main/c/xmq-cli.c    |  5 +++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index c47339a..dce65c0 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -595,7 +595,12 @@ void parse_ixml_alts(XMQParseState *state)
         char mark = state->ixml_rule->mark;
         state->ixml_rule = new_ixml_rule();
         state->ixml_rule->rule_name->name = strdup(name->name);
-        if (name->alias) state->ixml_rule->rule_name->alias = strdup(name->alias);
+        check_malloc(state->ixml_rule->rule_name->name);
+        if (name->alias)
+        {
+            state->ixml_rule->rule_name->alias = strdup(name->alias);
+            check_malloc(state->ixml_rule->rule_name->alias);
+        }
         state->ixml_rule->mark = mark;
         vector_push_back(state->ixml_rules, state->ixml_rule);
     }
@@ -932,6 +937,7 @@ void parse_ixml_hex(XMQParseState *state, int *value)
     }
     const char *stop = state->i;
     char *hex = strndup(start, stop-start);
+    check_malloc(hex);
     long v = strtol(hex, NULL, 16);
     *value = v > 0x10ffff ? -1 : (int)v; // Too large to be a code point.
     free(hex);
@@ -1058,6 +1064,7 @@ void parse_ixml_naming(XMQParseState *state,
     const char *name_start, *name_stop;
     parse_ixml_name(state, &name_start, &name_stop);
     *name = strndup(name_start, (name_stop-name_start));
+    check_malloc(*name);
 
     parse_ixml_whitespace(state);
 
@@ -1066,6 +1073,7 @@ void parse_ixml_naming(XMQParseState *state,
         const char *alias_start, *alias_stop;
         parse_ixml_alias(state, &alias_start, &alias_stop);
         *alias = strndup(alias_start, alias_stop-alias_start);
+        check_malloc(*alias);
     }
     else
     {
@@ -1704,6 +1712,7 @@ void add_yaep_nonterminal(XMQParseState *state, IXMLNonTerminal *nt)
 void add_yaep_tmp_term_terminal(XMQParseState *state, char *name, int code)
 {
     IXMLTerminal *t = new_ixml_terminal();
+    check_malloc(name);
     t->name = name;
     t->code = code;
     vector_push_back(state->ixml_tmp_terminals, t);
@@ -1713,6 +1722,7 @@ void add_single_char_rule(XMQParseState *state, IXMLNonTerminal *nt, int uc, cha
 {
     IXMLRule *rule = new_ixml_rule();
     rule->rule_name->name = strdup(nt->name);
+    check_malloc(rule->rule_name->name);
     rule->mark = mark;
     vector_push_back(state->ixml_rules, rule);
     char buffer[16];
@@ -1773,6 +1783,7 @@ bool scan_content_fixup_charsets(XMQParseState *state, const char *start, const
             // get syntax error at line:col.
             t = new_ixml_terminal();
             t->name = strdup(buf);
+            check_malloc(t->name);
             t->code = uc;
             add_yaep_terminal(state, t);
         }
@@ -2002,6 +2013,7 @@ IXMLNonTerminal *copy_ixml_nonterminal(IXMLNonTerminal *nt)
 {
     IXMLNonTerminal *t = (IXMLNonTerminal*)calloc(1, sizeof(IXMLNonTerminal));
     t->name = strdup(nt->name);
+    check_malloc(t->name);
     return t;
 }
 
@@ -2067,7 +2079,9 @@ char *generate_rule_name(XMQParseState *state)
     char buf[16];
     snprintf(buf, 15, "|%d", state->num_generated_rules);
     state->num_generated_rules++;
-    return strdup(buf);
+    char *name = strdup(buf);
+    check_malloc(name);
+    return name;
 }
 
 char *generate_charset_terminal_name(IXMLCharset *cs, char mark)
diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index be97f92..40224c4 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1070,6 +1070,11 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
             if (offset == 8)
             {
                 val = strdup(p+1);
+                if (!val)
+                {
+                    fprintf(stderr, "xmq: Out of memory!\n");
+                    return false;
+                }
             }
             else
             {
-- 
2.43.0


From f2e1d448a4a3adbb4199e822e0861802b7595f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:51 +0000
Subject: [PATCH 60/63] fix: load a text of many parts without going through it
 for each part

---
 src/main/c/parts/xmq_internals.h |  3 +++
 src/main/c/xmq.c                 | 39 ++++++++++++++++++++++++++++++--
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/main/c/parts/xmq_internals.h b/src/main/c/parts/xmq_internals.h
index ee98e00..d18dd63 100644
--- a/src/main/c/parts/xmq_internals.h
+++ b/src/main/c/parts/xmq_internals.h
@@ -306,6 +306,9 @@ struct XMQParseState
     bool ixml_all_parses; // If IXML parse is ambiguous then print all parses.
     bool ixml_try_to_recover; // If IXML parse fails, try to recover.
     void *pi_node; // The pi node (xmlNodePtr) just started.
+    void *tail_node; // The node (xmlNodePtr) whose content was last appended to.
+    size_t tail_size; // The size of its content.
+    size_t tail_max; // The size its content can grow to without being reallocated.
     XMQOutputSettings *output_settings; // Used when coloring existing text using the tokenizer.
     int magic_cookie; // Used to check that the state has been properly initialized.
 
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index e465a11..822cef0 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1914,6 +1914,7 @@ bool xmqParseBuffer(XMQDoc *doq, const char *start, const char *stop, const char
 
     XMQParseState *state = xmqNewParseState(parse, output_settings);
     state->merge_text = !(flags & XMQ_FLAG_NOMERGE);
+    state->tail_node = NULL;
     state->doq = doq;
     xmqSetStateSourceName(state, doq->source_name_);
 
@@ -1986,6 +1987,28 @@ void do_whitespace(XMQParseState *state,
 {
 }
 
+// Append to the content of a text, comment or processing instruction. The content can come in many
+// parts, remember its size and leave room for more parts, to avoid going through all of it for each part.
+void append_content(XMQParseState *state, xmlNodePtr n, const char *content)
+{
+    size_t add = strlen(content);
+    if (state->tail_node != n)
+    {
+        state->tail_node = n;
+        state->tail_size = state->tail_max = n->content ? strlen((const char*)n->content) : 0;
+    }
+    if (!n->content || state->tail_size + add > state->tail_max)
+    {
+        size_t max = state->tail_size + add;
+        if (n->content) max *= 2;
+        n->content = (xmlChar*)xmlRealloc(n->content, max+1);
+        check_malloc(n->content);
+        state->tail_max = max;
+    }
+    memcpy(n->content + state->tail_size, content, add+1);
+    state->tail_size += add;
+}
+
 xmlNodePtr create_quote(XMQParseState *state,
                        size_t l,
                        size_t col,
@@ -2004,6 +2027,12 @@ xmlNodePtr create_quote(XMQParseState *state,
         free(trimmed);
         return parent;
     }
+    if (state->merge_text && parent->last && is_text_node(parent->last))
+    {
+        append_content(state, parent->last, trimmed);
+        free(trimmed);
+        return parent->last;
+    }
     xmlNodePtr n = xmlNewDocText(state->doq->docptr_.xml, (const xmlChar *)trimmed);
     if (state->merge_text)
     {
@@ -2047,7 +2076,7 @@ void do_quote(XMQParseState *state,
 void add_pi_content(XMQParseState *state, const char *content)
 {
     // No content is not the same as empty content.
-    if (*content) xmlNodeAddContent((xmlNodePtr)state->pi_node, (const xmlChar *)content);
+    if (*content) append_content(state, (xmlNodePtr)state->pi_node, content);
 }
 
 void add_doctype_content(XMQParseState *state, const char *content);
@@ -2116,6 +2145,12 @@ xmlNodePtr create_entity(XMQParseState *state,
         xmlFreeNode(n);
         n = parent;
     }
+    else if (n->type == XML_TEXT_NODE && parent->last && is_text_node(parent->last))
+    {
+        append_content(state, parent->last, (const char*)n->content);
+        xmlFreeNode(n);
+        n = parent->last;
+    }
     else
     {
         n = xmlAddChild(parent, n);
@@ -2189,7 +2224,7 @@ void do_comment_continuation(XMQParseState*state,
     tmp[0] = '\n';
     memcpy(tmp+1, trimmed, l);
     tmp[l+1] = 0;
-    xmlNodeAddContent(last, (const xmlChar *)tmp);
+    append_content(state, last, tmp);
     free(trimmed);
     free(tmp);
 }
-- 
2.43.0


From 2d58068d86c85426e9c936197b0895cac07f9fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:51 +0000
Subject: [PATCH 61/63] fix: grow a buffer in proportion to its size

---
 src/main/c/parts/membuffer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/membuffer.c b/src/main/c/parts/membuffer.c
index 1a8453f..e1ce634 100644
--- a/src/main/c/parts/membuffer.c
+++ b/src/main/c/parts/membuffer.c
@@ -70,12 +70,12 @@ size_t pick_buffer_new_size(size_t max, size_t used, size_t add)
     assert(used <= max);
     if (used + add > max)
     {
-        // Increment buffer with 1KiB.
-        max = max + 1024;
+        // Increment buffer with 1KiB, or with half its size if that is more.
+        max = max + (max > 2048 ? max/2 : 1024);
     }
     if (used + add > max)
     {
-        // Still did not fit? The add was more than 1 Kib. Lets add that.
+        // Still did not fit? The add was more than the increment. Lets add that.
         max = max + add;
     }
     assert(used + add <= max);
-- 
2.43.0


From e6ca7382ad04202e55dc5c90dfd734122633e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:51 +0000
Subject: [PATCH 62/63] fix: the table of the names in an object grows with
 their number

---
 src/main/c/parts/hashmap.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/main/c/parts/hashmap.c b/src/main/c/parts/hashmap.c
index 1d8a858..5bf3692 100644
--- a/src/main/c/parts/hashmap.c
+++ b/src/main/c/parts/hashmap.c
@@ -118,10 +118,36 @@ void hashmap_free_and_values(HashMap *map, FreeFuncPtr freefunc)
 }
 
 
+// Make the table twice as large.
+static void hashmap_grow(HashMap* table)
+{
+    size_t max_size = table->max_size_*2;
+    HashMapNode **nodes = (HashMapNode**)calloc(max_size, sizeof(HashMapNode*));
+    check_malloc(nodes);
+
+    for (size_t i=0; i < table->max_size_; ++i)
+    {
+        HashMapNode *node = table->nodes_[i];
+        while (node)
+        {
+            HashMapNode *next = node->next_;
+            HashMapNode **slot = &nodes[hash_code(node->key_) % max_size];
+            node->next_ = *slot;
+            *slot = node;
+            node = next;
+        }
+    }
+    free(table->nodes_);
+    table->nodes_ = nodes;
+    table->max_size_ = max_size;
+}
+
 void hashmap_put(HashMap* table, const char* key, void *val)
 {
     assert(val != NULL);
 
+    if (table->size_ >= table->max_size_*2) hashmap_grow(table);
+
     size_t index = hash_code(key) % table->max_size_;
     HashMapNode* slot = table->nodes_[index];
     HashMapNode* prev_slot = NULL;
-- 
2.43.0


From bd2d8ee742ed107caf64d326ab4d9122349b3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:34 +0000
Subject: [PATCH 63/63] fix: take the bottom of a stack without going through
 all of it

---
 src/main/c/parts/stack.c | 20 +++-----------------
 src/main/c/parts/stack.h |  1 +
 2 files changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/main/c/parts/stack.c b/src/main/c/parts/stack.c
index af8be19..7e4c6cb 100644
--- a/src/main/c/parts/stack.c
+++ b/src/main/c/parts/stack.c
@@ -29,8 +29,6 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE. */
 
 #ifdef STACK_MODULE
 
-StackElement *find_element_above(Stack *s, StackElement *b);
-
 Stack *stack_create()
 {
     Stack *s = (Stack*)malloc(sizeof(Stack));
@@ -66,6 +64,7 @@ void stack_push(Stack *stack, void *data)
     else
     {
         element->below = stack->top;
+        stack->top->above = element;
         stack->top = element;
     }
     stack->size++;
@@ -79,25 +78,12 @@ void *stack_pop(Stack *stack)
     void *data = stack->top->data;
     StackElement *element = stack->top;
     stack->top = element->below;
+    if (stack->top) stack->top->above = NULL;
     free(element);
     stack->size--;
     return data;
 }
 
-StackElement *find_element_above(Stack *s, StackElement *b)
-{
-    StackElement *e = s->top;
-
-    for (;;)
-    {
-        if (!e) return NULL;
-        if (e->below == b) return e;
-        e = e->below;
-    }
-
-    return NULL;
-}
-
 void *stack_rock(Stack *stack)
 {
     assert(stack);
@@ -109,7 +95,7 @@ void *stack_rock(Stack *stack)
 
     StackElement *element = stack->bottom;
     void *data = element->data;
-    StackElement *above = find_element_above(stack, element);
+    StackElement *above = element->above;
     assert(above);
     stack->bottom = above;
     above->below = NULL;
diff --git a/src/main/c/parts/stack.h b/src/main/c/parts/stack.h
index d8200b3..04c3e16 100644
--- a/src/main/c/parts/stack.h
+++ b/src/main/c/parts/stack.h
@@ -29,6 +29,7 @@ struct StackElement
 {
     void *data;
     StackElement *below; // When this element is popped, below becomes top element.
+    StackElement *above; // When this element is rocked away, above becomes bottom element.
 };
 
 struct Stack
-- 
2.43.0

