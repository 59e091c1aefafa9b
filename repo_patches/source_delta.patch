From f18d5fc147e91e8670cda47018ff2b96af392353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:16 +0000
Subject: [PATCH 01/37] fix: close a session whose console was stolen even when
 its buffer is empty or it is suspended

A session in quiet mode receives no message about the steal, so its buffer
was empty and the daemon never closed its connection; a suspended session was
never flushed and closed either.
---
 src/server-obj.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index a7a6cda..813fc2a 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -720,16 +720,20 @@ void unlink_objs(obj_t *src, obj_t *dst)
     /*  If a client obj has become completely unlinked, set its EOF flag.
      *    This will prevent new data from being added to the obj's buffer,
      *    and the obj will be closed once its buffer is empty.
+     *  Since the buffer may already be empty (eg, quiet-mode) or the client
+     *    may be suspended, tpoll is notified so write_to_obj() will check.
      */
     if (is_client_obj(src)
             && list_is_empty(src->readers) && list_is_empty(src->writers)) {
         assert(is_console_obj(dst));
         src->gotEOF = 1;
+        (void) tpoll_set(tp_global, src->fd, POLLOUT);
     }
     else if (is_client_obj(dst)
             && list_is_empty(dst->readers) && list_is_empty(dst->writers)) {
         assert(is_console_obj(src));
         dst->gotEOF = 1;
+        (void) tpoll_set(tp_global, dst->fd, POLLOUT);
     }
 
     DPRINTF((10, "Unlinked [%s] reads from [%s] writes.\n",
-- 
2.43.0


From 0c7d0866f71d2ecdcceb6ac4acd2c7662ec5e253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 02/37] fix: flush and close a session that ended while its
 output was suspended

---
 src/server-obj.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index 813fc2a..126693a 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -925,7 +925,14 @@ again:
         obj->gotEOF = 1;
         tpoll_clear(tp_global, obj->fd, POLLIN);
         isEmpty = (obj->bufInPtr == obj->bufOutPtr);
-        return(isEmpty ? shutdown_obj(obj) : 0);
+        if (isEmpty) {
+            return(shutdown_obj(obj));
+        }
+        /*  Ensure the remaining data is flushed by write_to_obj() since it may
+         *    not be scheduled for writing if the client is suspended.
+         */
+        tpoll_set(tp_global, obj->fd, POLLOUT);
+        return(0);
     }
     else {
         DPRINTF((15, "Read %d bytes from [%s].\n", n, obj->name));
-- 
2.43.0


From ba856ef6daeb3177e6e05a27455a71377c1e7028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:55 +0000
Subject: [PATCH 03/37] fix: forward the input preceding an escape sequence
 before acting on the escape

---
 src/server-esc.c |  8 ++++++++
 src/server-obj.c | 39 ++++++++++++++++++++++++++-------------
 src/server.h     |  2 ++
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/server-esc.c b/src/server-esc.c
index cee005e..f169087 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -76,6 +76,14 @@ int process_client_escapes(obj_t *client, void *src, int len)
     for (p=q=src; p<last; p++) {
         if (client->aux.client.gotEscape) {
             client->aux.client.gotEscape = 0;
+            /*
+             *  Forward the data preceding this escape before acting on it
+             *    in order to preserve its position in the input stream.
+             */
+            if ((*p != ESC_CHAR) && (q > (unsigned char *) src)) {
+                write_obj_readers(client, src, q - (unsigned char *) src);
+                q = src;
+            }
             switch (*p) {
             case ESC_CHAR:
                 *q++ = *p;
diff --git a/src/server-obj.c b/src/server-obj.c
index 126693a..740c933 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -889,8 +889,6 @@ int read_from_obj(obj_t *obj)
     unsigned char buf[(OBJ_BUF_SIZE / 2) - 1];
     int n;
     int isEmpty;
-    ListIterator i;
-    obj_t *reader;
 
     DPRINTF((20, "Entered read_from_obj: [%s]\n", obj->name));
 
@@ -952,23 +950,38 @@ again:
          *    after the escape characters have been processed.
          */
         if (n > 0) {
-            i = list_iterator_create(obj->readers);
-            while ((reader = list_next(i))) {
-
-                if (is_logfile_obj(reader)) {
-                    write_log_data(reader, buf, n);
-                }
-                else {
-                    write_obj_data(reader, buf, n, 0);
-                }
-            }
-            list_iterator_destroy(i);
+            write_obj_readers(obj, buf, n);
         }
     }
     return(n);
 }
 
 
+void write_obj_readers(obj_t *obj, const void *src, int len)
+{
+/*  Writes the data (src) of length (len) read from the object (obj)
+ *    into the circular-buffer of each obj in its "readers" list.
+ */
+    ListIterator i;
+    obj_t *reader;
+
+    assert(obj != NULL);
+
+    i = list_iterator_create(obj->readers);
+    while ((reader = list_next(i))) {
+
+        if (is_logfile_obj(reader)) {
+            write_log_data(reader, src, len);
+        }
+        else {
+            write_obj_data(reader, src, len, 0);
+        }
+    }
+    list_iterator_destroy(i);
+    return;
+}
+
+
 int write_obj_data(obj_t *obj, const void *src, int len, int isInfo)
 {
 /*  Writes the buffer (src) of length (len) into the object's (obj)
diff --git a/src/server.h b/src/server.h
index 44c513c..f61a1fe 100644
--- a/src/server.h
+++ b/src/server.h
@@ -456,6 +456,8 @@ int shutdown_obj(obj_t *obj);
 
 int read_from_obj(obj_t *obj);
 
+void write_obj_readers(obj_t *obj, const void *src, int len);
+
 int write_obj_data(obj_t *obj, const void *src, int len, int isInfo);
 
 int write_to_obj(obj_t *obj);
-- 
2.43.0


From 34f33000de9506634a57eb07791984d002496cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 04/37] fix: escape IAC bytes in data sent to telnet consoles

---
 src/server-obj.c    |  3 +++
 src/server-telnet.c | 23 +++++++++++++++++++++++
 src/server.h        |  2 ++
 3 files changed, 28 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 740c933..1d92d87 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -973,6 +973,9 @@ void write_obj_readers(obj_t *obj, const void *src, int len)
         if (is_logfile_obj(reader)) {
             write_log_data(reader, src, len);
         }
+        else if (is_telnet_obj(reader)) {
+            write_telnet_data(reader, src, len);
+        }
         else {
             write_obj_data(reader, src, len, 0);
         }
diff --git a/src/server-telnet.c b/src/server-telnet.c
index fb66864..ac3a0c2 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -499,6 +499,29 @@ int send_telnet_cmd(obj_t *telnet, int cmd, int opt)
 }
 
 
+int write_telnet_data(obj_t *telnet, const void *src, int len)
+{
+/*  Writes the buffer (src) of length (len) into the (telnet) obj's
+ *    circular-buffer, escaping each data byte equal to IAC by doubling it.
+ *  Returns the number of bytes written.
+ */
+    unsigned char buf[OBJ_BUF_SIZE - 1];
+    const unsigned char *p = src;
+    const unsigned char *last = p + len;
+    unsigned char *q = buf;
+
+    assert(is_telnet_obj(telnet));
+
+    while ((p < last) && (q < &buf[sizeof(buf) - 1])) {
+        if (*p == IAC) {
+            *q++ = IAC;
+        }
+        *q++ = *p++;
+    }
+    return(write_obj_data(telnet, buf, q - buf, 0));
+}
+
+
 static int process_telnet_cmd(obj_t *telnet, int cmd, int opt)
 {
 /*  Processes the given telnet cmd received from the (telnet) console.
diff --git a/src/server.h b/src/server.h
index f61a1fe..f2cc1c0 100644
--- a/src/server.h
+++ b/src/server.h
@@ -507,6 +507,8 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len);
 
 int send_telnet_cmd(obj_t *telnet, int cmd, int opt);
 
+int write_telnet_data(obj_t *telnet, const void *src, int len);
+
 
 /*  server-test.c
  */
-- 
2.43.0


From 45a7e28c9b84b53f6026e88f5074e73a77d28715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 05/37] fix: forget an unfinished telnet command when the
 connection is re-established

---
 src/server-telnet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index ac3a0c2..60266ba 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -265,6 +265,7 @@ static int connect_telnet_obj(obj_t *telnet)
             telnet->aux.telnet.state);
     }
     telnet->gotEOF = 0;
+    telnet->aux.telnet.iac = -1;
     telnet->aux.telnet.state = CONMAN_TELNET_UP;
     tpoll_set(tp_global, telnet->fd, POLLIN);
 
-- 
2.43.0


From d5aee4aa619778370a88260962be69f461982b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 06/37] fix: do not mistake an escaped IAC within a telnet
 subnegotiation for its end

---
 src/server-telnet.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 60266ba..64dc78b 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -57,6 +57,8 @@ static void reset_telnet_delay(obj_t *telnet);
 static int process_telnet_cmd(obj_t *telnet, int cmd, int opt);
 static char * opt2str(int opt, char *buf, int buflen);
 
+#define TELNET_SB_IAC 256               /* got IAC during subnegotiation */
+
 extern tpoll_t tp_global;               /* defined in server.c */
 
 
@@ -386,6 +388,12 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
             else
                 *q++ = *p;
             break;
+        case TELNET_SB_IAC:
+            if (*p == IAC) {
+                telnet->aux.telnet.iac = SB;
+                break;
+            }
+            /* fall-thru */
         case IAC:
             switch (*p) {
             case IAC:
@@ -425,11 +433,11 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
         case SB:
             /*
              *  Ignore subnegotiation opts.  Consume bytes until IAC SE.
-             *    Remain in the SB state until an IAC is found; then reset
-             *    the state to IAC assuming the next byte will be the SE cmd.
+             *    Remain in the SB state until an IAC is found; a doubled IAC
+             *    is a data byte of the subnegotiation.
              */
             if (*p == IAC)
-                telnet->aux.telnet.iac = *p;
+                telnet->aux.telnet.iac = TELNET_SB_IAC;
             break;
         default:
             log_err(0, "Reached invalid state %#.2x%.2x for console [%s]",
-- 
2.43.0


From 4a32702f22908cf81ed99eef94520659a9646cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:58 +0000
Subject: [PATCH 07/37] fix: serialize the setup of sessions with the main
 thread

---
 src/server-ipmi.c | 14 +++++++++++++-
 src/server-sock.c | 39 +++++++++++++++++++++++++++++++++------
 src/server.c      | 11 +++++++++++
 src/server.h      |  9 +++++++++
 src/tpoll.c       | 28 ++++++++++++++++++++++++++++
 src/tpoll.h       |  3 +++
 6 files changed, 97 insertions(+), 7 deletions(-)

diff --git a/src/server-ipmi.c b/src/server-ipmi.c
index 5e51aa7..c80ff4d 100644
--- a/src/server-ipmi.c
+++ b/src/server-ipmi.c
@@ -69,6 +69,7 @@ static int process_ipmi_opt_workaround(
     ipmiopt_t *iopts, const char *str, char *errbuf, int errlen);
 static int parse_key(char *dst, const char *src, size_t dstlen);
 static void disconnect_ipmi_obj(obj_t *ipmi);
+static void connect_ipmi_obj_cb(obj_t *ipmi);
 static int connect_ipmi_obj(obj_t *ipmi);
 static int initiate_ipmi_connect(obj_t *ipmi);
 static int create_ipmi_ctx(obj_t *ipmi);
@@ -850,6 +851,17 @@ static void disconnect_ipmi_obj(obj_t *ipmi)
 }
 
 
+static void connect_ipmi_obj_cb(obj_t *ipmi)
+{
+/*  Callback function invoked by the ipmiconsole engine thread.
+ */
+    x_pthread_mutex_lock(&objs_mutex);
+    (void) connect_ipmi_obj(ipmi);
+    x_pthread_mutex_unlock(&objs_mutex);
+    return;
+}
+
+
 static int connect_ipmi_obj(obj_t *ipmi)
 {
 /*  Establishes a non-blocking connect with the specified (ipmi) obj.
@@ -914,7 +926,7 @@ static int initiate_ipmi_connect(obj_t *ipmi)
         ipmi->aux.ipmi.host, ipmi->name));
 
     rc = ipmiconsole_engine_submit(ipmi->aux.ipmi.ctx,
-        (Ipmiconsole_callback) connect_ipmi_obj, ipmi);
+        (Ipmiconsole_callback) connect_ipmi_obj_cb, ipmi);
     if (rc < 0) {
         return(-1);
     }
diff --git a/src/server-sock.c b/src/server-sock.c
index a5a9c6c..7f7cd15 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -81,6 +81,7 @@ static int check_too_many_consoles(req_t *req);
 static int check_busy_consoles(req_t *req);
 static int send_rsp(req_t *req, int errnum, char *errmsg);
 static int perform_query_cmd(req_t *req);
+static int perform_session_cmd(req_t *req, server_conf_t *conf);
 static int perform_monitor_cmd(req_t *req, server_conf_t *conf);
 static int perform_connect_cmd(req_t *req, server_conf_t *conf);
 static void check_console_state(obj_t *console, obj_t *client);
@@ -132,11 +133,9 @@ void process_client(client_arg_t *args)
 
     switch(req->command) {
     case CONMAN_CMD_CONNECT:
-        if (perform_connect_cmd(req, conf) < 0)
-            goto err;
-        break;
+        /* fall-thru */
     case CONMAN_CMD_MONITOR:
-        if (perform_monitor_cmd(req, conf) < 0)
+        if (perform_session_cmd(req, conf) < 0)
             goto err;
         break;
     case CONMAN_CMD_QUERY:
@@ -479,6 +478,7 @@ static int query_consoles_via_globbing(
 
     /*  Search objs for console names matching console patterns in the request.
      */
+    x_pthread_mutex_lock(&objs_mutex);
     i = list_iterator_create(req->consoles);
     j = list_iterator_create(conf->objs);
     while ((pat = list_next(i))) {
@@ -493,6 +493,7 @@ static int query_consoles_via_globbing(
     }
     list_iterator_destroy(i);
     list_iterator_destroy(j);
+    x_pthread_mutex_unlock(&objs_mutex);
     return(0);
 }
 
@@ -544,6 +545,7 @@ static int query_consoles_via_regex(
 
     /*  Search objs for console names matching console patterns in the request.
      */
+    x_pthread_mutex_lock(&objs_mutex);
     i = list_iterator_create(conf->objs);
     while ((obj = list_next(i))) {
         if (!is_console_obj(obj))
@@ -554,6 +556,7 @@ static int query_consoles_via_regex(
             list_append(matches, obj);
     }
     list_iterator_destroy(i);
+    x_pthread_mutex_unlock(&objs_mutex);
     regfree(&rex);
     return(0);
 }
@@ -570,8 +573,6 @@ static int validate_req(req_t *req)
     }
     if (check_too_many_consoles(req) < 0)
         return(-1);
-    if (check_busy_consoles(req) < 0)
-        return(-1);
 
     return(0);
 }
@@ -822,6 +823,32 @@ static int perform_query_cmd(req_t *req)
 }
 
 
+static int perform_session_cmd(req_t *req, server_conf_t *conf)
+{
+/*  Performs the CONNECT or MONITOR command.
+ *  The console is checked for being busy, and the client is linked to it,
+ *    without any other thread being able to access the objs in the meantime.
+ *    Since the main thread could be waiting for this mutex, the client socket
+ *    is set non-blocking beforehand so writing to it cannot stall the daemon.
+ *  Returns 0 if the command succeeds, or -1 on error.
+ */
+    int rc;
+
+    set_fd_nonblocking(req->sd);
+
+    x_pthread_mutex_lock(&objs_mutex);
+    if (check_busy_consoles(req) < 0)
+        rc = -1;
+    else if (req->command == CONMAN_CMD_CONNECT)
+        rc = perform_connect_cmd(req, conf);
+    else
+        rc = perform_monitor_cmd(req, conf);
+    x_pthread_mutex_unlock(&objs_mutex);
+
+    return(rc);
+}
+
+
 static int perform_monitor_cmd(req_t *req, server_conf_t *conf)
 {
 /*  Performs the MONITOR command, placing the client in a
diff --git a/src/server.c b/src/server.c
index 6b91370..d5d0155 100644
--- a/src/server.c
+++ b/src/server.c
@@ -51,6 +51,7 @@
 #include "util-file.h"
 #include "util-str.h"
 #include "util.h"
+#include "wrapper.h"
 
 
 static void begin_daemonize(int *fd_ptr, pid_t *pgid_ptr);
@@ -85,6 +86,8 @@ static char coredumpdir[PATH_MAX];
  */
 tpoll_t tp_global = NULL;
 
+pthread_mutex_t objs_mutex = PTHREAD_MUTEX_INITIALIZER;
+
 extern char ** environ;
 
 
@@ -153,13 +156,21 @@ int main(int argc, char *argv[])
 #endif /* WITH_FREEIPMI */
 
     setup_nofile_limit(conf);
+
+    x_pthread_mutex_lock(&objs_mutex);
+    tpoll_set_mutex(conf->tp, &objs_mutex);
     open_objs(conf);
     mux_io(conf);
+    x_pthread_mutex_unlock(&objs_mutex);
 
 #if WITH_FREEIPMI
     ipmi_fini();
 #endif /* WITH_FREEIPMI */
 
+    /*  This mutex is not unlocked to prevent client threads from accessing
+     *    the objs once they have been destroyed.
+     */
+    x_pthread_mutex_lock(&objs_mutex);
     destroy_server_conf(conf);
 
     if (pgid > 0) {
diff --git a/src/server.h b/src/server.h
index f2cc1c0..c0c78c5 100644
--- a/src/server.h
+++ b/src/server.h
@@ -369,6 +369,15 @@ typedef struct client_args {
 #define is_console_obj(OBJ)  (OBJ->type &  CONMAN_OBJ_IS_CONSOLE)
 
 
+/*  server.c
+ *
+ *  Serializes access to the objs, their links, and their connections amongst
+ *    the main thread, the client threads, and the ipmiconsole engine threads.
+ *  The main thread holds this mutex whenever it is not blocked in tpoll().
+ */
+extern pthread_mutex_t objs_mutex;
+
+
 /*  server-conf.c
  */
 server_conf_t * create_server_conf(void);
diff --git a/src/tpoll.c b/src/tpoll.c
index 084074c..573cc89 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -91,6 +91,7 @@ struct tpoll {
     _tpoll_timer_t   timers_active;     /* sorted list of active timers      */
     int              timers_next_id;    /* next id to be assigned to a timer */
     pthread_mutex_t  mutex;             /* locking primitive                 */
+    pthread_mutex_t *caller_mutex;      /* released while blocking on poll() */
     bool             is_blocked;        /* flag set when blocking on poll()  */
     bool             is_realloced;      /* flag set after fd_array[] realloc */
     bool             is_signaled;       /* flag set when fd_pipe is signaled */
@@ -149,6 +150,7 @@ tpoll_create (int n)
     }
     tp->fd_pipe[ 0 ] = tp->fd_pipe[ 1 ] = -1;
     tp->timers_active = NULL;
+    tp->caller_mutex = NULL;
     tp->is_blocked = false;
     tp->is_realloced = false;
     tp->is_signaled = false;
@@ -237,6 +239,20 @@ tpoll_destroy (tpoll_t tp)
 }
 
 
+void
+tpoll_set_mutex (tpoll_t tp, pthread_mutex_t *mutex)
+{
+/*  Sets the [mutex] that is held by the caller of tpoll() for the tpoll object
+ *    [tp].  It will be released while tpoll() is blocked waiting for events,
+ *    but will be held when timer callback functions are invoked.
+ */
+    if (tp) {
+        tp->caller_mutex = mutex;
+    }
+    return;
+}
+
+
 int
 tpoll_zero (tpoll_t tp, tpoll_zero_t how)
 {
@@ -570,6 +586,7 @@ tpoll (tpoll_t tp, int ms)
     _tpoll_timer_t  t;
     int             timeout;
     int             ms_diff;
+    int             poll_errno;
     int             n;
     int             e;
 
@@ -657,15 +674,26 @@ tpoll (tpoll_t tp, int ms)
             log_err (errno = e, "Unable to unlock tpoll mutex");
         }
         DPRINTF((25, "tpoll poll enter ms=%d mfd=%d.\n", timeout, tp->max_fd));
+        if (tp->caller_mutex
+                && ((e = pthread_mutex_unlock (tp->caller_mutex)) != 0)) {
+            log_err (errno = e, "Unable to unlock tpoll caller mutex");
+        }
         n = poll (tp->fd_array, tp->max_fd + 1, timeout);
+        poll_errno = errno;
         DPRINTF((25, "tpoll poll return n=%d.\n", n));
 
+        if (tp->caller_mutex
+                && ((e = pthread_mutex_lock (tp->caller_mutex)) != 0)) {
+            log_err (errno = e, "Unable to lock tpoll caller mutex");
+        }
+
         if ((e = pthread_mutex_lock (&tp->mutex)) != 0) {
             log_err (errno = e, "Unable to lock tpoll mutex");
         }
         tp->is_blocked = false;
 
         if (n < 0) {
+            errno = poll_errno;
             break;
         }
         if (tp->is_realloced) {
diff --git a/src/tpoll.h b/src/tpoll.h
index 373da4d..78c9a44 100644
--- a/src/tpoll.h
+++ b/src/tpoll.h
@@ -26,6 +26,7 @@
 #define _TPOLL_H
 
 #include <poll.h>
+#include <pthread.h>
 #include <sys/time.h>
 
 
@@ -61,6 +62,8 @@ tpoll_t tpoll_create (int n);
 
 void tpoll_destroy (tpoll_t tp);
 
+void tpoll_set_mutex (tpoll_t tp, pthread_mutex_t *mutex);
+
 int tpoll_zero (tpoll_t tp, tpoll_zero_t how);
 
 int tpoll_clear (tpoll_t tp, int fd, short int events);
-- 
2.43.0


From 8f9e307018bd9d9815dcf49f04531baf7d45d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:21 +0000
Subject: [PATCH 08/37] fix: keep the pollfd array valid until poll() has
 returned when it has to grow

---
 src/tpoll.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index 573cc89..a6c2679 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -84,6 +84,7 @@ typedef struct tpoll_timer * _tpoll_timer_t;
 
 struct tpoll {
     struct pollfd   *fd_array;          /* poll fd array                     */
+    struct pollfd   *fd_array_poll;     /* poll fd array in use by poll()    */
     int              fd_pipe[ 2 ];      /* signal pipe for unblocking poll() */
     int              num_fds_alloc;     /* num pollfd structs allocated      */
     int              num_fds_used;      /* num pollfd structs in use         */
@@ -149,6 +150,7 @@ tpoll_create (int n)
         goto err;
     }
     tp->fd_pipe[ 0 ] = tp->fd_pipe[ 1 ] = -1;
+    tp->fd_array_poll = NULL;
     tp->timers_active = NULL;
     tp->caller_mutex = NULL;
     tp->is_blocked = false;
@@ -586,6 +588,7 @@ tpoll (tpoll_t tp, int ms)
     _tpoll_timer_t  t;
     int             timeout;
     int             ms_diff;
+    int             max_fd;
     int             poll_errno;
     int             n;
     int             e;
@@ -669,6 +672,8 @@ tpoll (tpoll_t tp, int ms)
         /*  Poll for events, discarding any on the "signaling pipe".
          */
         tp->is_blocked = true;
+        tp->fd_array_poll = tp->fd_array;
+        max_fd = tp->max_fd;
 
         if ((e = pthread_mutex_unlock (&tp->mutex)) != 0) {
             log_err (errno = e, "Unable to unlock tpoll mutex");
@@ -678,7 +683,7 @@ tpoll (tpoll_t tp, int ms)
                 && ((e = pthread_mutex_unlock (tp->caller_mutex)) != 0)) {
             log_err (errno = e, "Unable to unlock tpoll caller mutex");
         }
-        n = poll (tp->fd_array, tp->max_fd + 1, timeout);
+        n = poll (tp->fd_array_poll, max_fd + 1, timeout);
         poll_errno = errno;
         DPRINTF((25, "tpoll poll return n=%d.\n", n));
 
@@ -691,6 +696,10 @@ tpoll (tpoll_t tp, int ms)
             log_err (errno = e, "Unable to lock tpoll mutex");
         }
         tp->is_blocked = false;
+        if (tp->fd_array_poll != tp->fd_array) {
+            free (tp->fd_array_poll);
+        }
+        tp->fd_array_poll = NULL;
 
         if (n < 0) {
             errno = poll_errno;
@@ -875,13 +884,18 @@ _tpoll_grow (tpoll_t tp, int num_fds_req)
     }
     /*  Force tpoll()'s poll() to unblock before we realloc the fd_array.
      *  Then tpoll() will have to re-acquire the mutex before continuing.
-     *  Since we currently have the mutex, we can now safely realloc fd_array.
+     *  Since poll() still refers to its fd_array until it has unblocked,
+     *    that memory is instead freed by tpoll().
      */
     _tpoll_signal_send (tp);
-    if (!(fd_array_tmp =
-            realloc (tp->fd_array, num_fds_tmp * sizeof (struct pollfd)))) {
+    if (!(fd_array_tmp = malloc (num_fds_tmp * sizeof (struct pollfd)))) {
         return (-1);
     }
+    memcpy (fd_array_tmp, tp->fd_array,
+        tp->num_fds_alloc * sizeof (struct pollfd));
+    if (tp->fd_array != tp->fd_array_poll) {
+        free (tp->fd_array);
+    }
     fd_array_new = fd_array_tmp + tp->num_fds_alloc;
     num_fds_new = num_fds_tmp - tp->num_fds_alloc;
     memset (fd_array_new, 0, num_fds_new * sizeof (struct pollfd));
-- 
2.43.0


From f1d6ce6eea853e1f7eb22d866e7213838897f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:19 +0000
Subject: [PATCH 09/37] fix: ignore access escapes of a session that was
 already disconnected from its console

---
 src/server-esc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index f169087..d9254ae 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -244,6 +244,12 @@ static void perform_console_writer_linkage(obj_t *client)
         return;
     assert(list_count(client->readers) <= 1);
 
+    /*  A client that has been disconnected (eg, its console was stolen)
+     *    but is not yet closed is no longer linked to a console.
+     */
+    if (list_is_empty(client->writers))
+        return;
+
     /*  A R/O or R/W client will have exactly one console writer.
      */
     assert(list_count(client->writers) == 1);
-- 
2.43.0


From 4c2e7bdf5fc7bc01e02220cda42f2b1ecc143a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:19 +0000
Subject: [PATCH 10/37] fix: grant write-access only upon a force or join
 escape and drop it only upon a monitor escape

---
 src/server-esc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index d9254ae..ece41f1 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -235,6 +235,7 @@ static void perform_console_writer_linkage(obj_t *client)
  */
     obj_t *console;
     int gotWrite;
+    int wantWrite;
 
     assert(is_client_obj(client));
 
@@ -261,6 +262,14 @@ static void perform_console_writer_linkage(obj_t *client)
      */
     gotWrite = list_count(client->readers);
 
+    /*  Only the force and join escapes request write-privileges.
+     *    Nothing changes if the client already has the access requested.
+     */
+    wantWrite = client->aux.client.req->enableForce
+        || client->aux.client.req->enableJoin;
+    if (!gotWrite == !wantWrite)
+        return;
+
     if (gotWrite) {
         client->aux.client.req->command = CONMAN_CMD_MONITOR;
         unlink_objs(client, console);
-- 
2.43.0


From 6ce28227c97dac44f9b8026f9a2a5d40e46e47f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 11/37] fix: write out processed log data before it can
 overwrite itself

---
 src/server-logfile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server-logfile.c b/src/server-logfile.c
index 0798150..23453f0 100644
--- a/src/server-logfile.c
+++ b/src/server-logfile.c
@@ -367,7 +367,7 @@ int write_log_data(obj_t *log, const void *src, int len)
  *  Returns the number of bytes written into the logfile obj's buffer.
  */
     const int minbuf = 25;              /* cr/lf + timestamp + meta/char */
-    unsigned char buf[OBJ_BUF_SIZE - 1];
+    unsigned char buf[(OBJ_BUF_SIZE / 2) - 1];
     const unsigned char *p;
     unsigned char *q;
     const unsigned char * const qLast = buf + sizeof(buf);
@@ -455,10 +455,13 @@ int write_log_data(obj_t *log, const void *src, int len)
             }
         }
         /*  Flush internal buffer before it overruns.
+         *  Since the processed data can exceed the size of the obj's
+         *    circular-buffer, write it out before it can be overwritten.
          */
         if ((qLast - q) < minbuf) {
             assert((q >= buf) && (q <= qLast));
             n += write_obj_data(log, buf, q - buf, 0);
+            (void) write_to_obj(log);
             q = buf;
         }
     }
-- 
2.43.0


From c4c41536879b8fd167a7c37d0039d11546414b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 12/37] fix: do not leak the connection of a new session into
 child processes

---
 src/server.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server.c b/src/server.c
index d5d0155..00b44eb 100644
--- a/src/server.c
+++ b/src/server.c
@@ -1003,8 +1003,11 @@ static void accept_client(server_conf_t *conf)
      *    blocking I/O.  Once the client request has been processed,
      *    this fd is set non-blocking and moved to the main fd set.
      *  Consequently, we force the new fd to be blocking here for portability.
+     *  And prevent a child process that is created before the client request
+     *    has been processed from holding the connection open.
      */
     set_fd_blocking(sd);
+    set_fd_closed_on_exec(sd);
 
     if (conf->enableKeepAlive) {
         if (setsockopt(sd, SOL_SOCKET, SO_KEEPALIVE,
-- 
2.43.0


From 943261b338f2d0ffe6b648f6977b45ba2fc9359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 13/37] fix: survive a client that resets its connection before
 its address is taken

---
 src/server-sock.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index 7f7cd15..63fefea 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -170,8 +170,11 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
     assert(sd >= 0);
 
     req->sd = sd;
-    if (getpeername(sd, (struct sockaddr *) &addr, &addrlen) < 0)
-        log_err(errno, "Unable to get address of remote peer");
+    if (getpeername(sd, (struct sockaddr *) &addr, &addrlen) < 0) {
+        log_msg(LOG_NOTICE, "Unable to get address of remote peer: %s",
+            strerror(errno));
+        return(-1);
+    }
     if (!inet_ntop(AF_INET, &addr.sin_addr, buf, sizeof(buf)))
         log_err(errno, "Unable to convert network address into string");
     req->port = ntohs(addr.sin_port);
-- 
2.43.0


From 2625712c20275604af8ef775fcea9500a7d9ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 14/37] fix: survive a failure to create the socket of a telnet
 console

---
 src/server-telnet.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 64dc78b..e8a2dc3 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -206,16 +206,22 @@ static int connect_telnet_obj(obj_t *telnet)
             return(-1);
         }
         if ((telnet->fd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
-            log_err(errno, "Unable to create socket for [%s]", telnet->name);
+            log_msg(LOG_WARNING, "Unable to create socket for [%s]: %s",
+                telnet->name, strerror(errno));
+            disconnect_telnet_obj(telnet);
+            return(-1);
         }
         if (setsockopt(telnet->fd, SOL_SOCKET, SO_OOBINLINE,
                 (const void *) &on, sizeof(on)) < 0) {
-            log_err(errno, "Unable to set OOBINLINE socket option");
+            log_msg(LOG_WARNING, "Unable to set OOBINLINE socket option: %s",
+                strerror(errno));
         }
         if (telnet->aux.telnet.enableKeepAlive) {
             if (setsockopt(telnet->fd, SOL_SOCKET, SO_KEEPALIVE,
                     (const void *) &on, sizeof(on)) < 0) {
-                log_err(errno, "Unable to set KEEPALIVE socket option");
+                log_msg(LOG_WARNING,
+                    "Unable to set KEEPALIVE socket option: %s",
+                    strerror(errno));
             }
         }
         set_fd_nonblocking(telnet->fd);
-- 
2.43.0


From 99903a1586f07e36544c1bb913bbb6fe7a41a3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 15/37] fix: survive a failure to accept a connection or to
 create its thread

---
 src/server.c | 28 +++++++++++++++++++++++++---
 src/server.h |  2 ++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/server.c b/src/server.c
index 00b44eb..5bd18f9 100644
--- a/src/server.c
+++ b/src/server.c
@@ -73,6 +73,7 @@ static void mux_io(server_conf_t *conf);
 static void open_daemon_logfile(server_conf_t *conf);
 static void reopen_logfiles(server_conf_t *conf);
 static void accept_client(server_conf_t *conf);
+static void resume_accept(server_conf_t *conf);
 
 /*  Signal handler flags and whatnot.
  */
@@ -993,7 +994,16 @@ static void accept_client(server_conf_t *conf)
         if (errno == ECONNABORTED) {
             return;
         }
-        log_err(errno, "Unable to accept new connection");
+        log_msg(LOG_WARNING, "Unable to accept new connection: %s",
+            strerror(errno));
+        /*
+         *  The connection may still be pending if resources are exhausted,
+         *    so take a break from the listening socket instead of spinning.
+         */
+        tpoll_clear(conf->tp, conf->ld, POLLIN);
+        (void) tpoll_timeout_relative(conf->tp,
+            (callback_f) resume_accept, conf, ACCEPT_RETRY_TIMEOUT * 1000);
+        return;
     }
     DPRINTF((5, "Accepted new client on fd=%d.\n", sd));
 
@@ -1012,7 +1022,8 @@ static void accept_client(server_conf_t *conf)
     if (conf->enableKeepAlive) {
         if (setsockopt(sd, SOL_SOCKET, SO_KEEPALIVE,
           (const void *) &on, sizeof(on)) < 0) {
-            log_err(errno, "Unable to set KEEPALIVE socket option");
+            log_msg(LOG_WARNING, "Unable to set KEEPALIVE socket option: %s",
+                strerror(errno));
         }
     }
     /*  Create a tmp struct to hold two args to pass to the thread.
@@ -1026,7 +1037,18 @@ static void accept_client(server_conf_t *conf)
 
     if ((rc = pthread_create(&tid, NULL,
       (PthreadFunc) process_client, args)) != 0) {
-        log_err(rc, "Unable to create new thread");
+        log_msg(LOG_WARNING, "Unable to create new thread: %s", strerror(rc));
+        (void) close(sd);
+        free(args);
     }
     return;
 }
+
+
+static void resume_accept(server_conf_t *conf)
+{
+/*  Resumes accepting connections on the listening socket after a failure.
+ */
+    tpoll_set(conf->tp, conf->ld, POLLIN);
+    return;
+}
diff --git a/src/server.h b/src/server.h
index c0c78c5..2dfc611 100644
--- a/src/server.h
+++ b/src/server.h
@@ -61,6 +61,8 @@
 #define IPMI_MAX_USER_LEN               IPMI_MAX_USER_NAME_LENGTH
 #define IPMI_MAX_PSWD_LEN               IPMI_2_0_MAX_PASSWORD_LENGTH
 #define IPMI_MAX_KG_LEN                 IPMI_MAX_K_G_LENGTH
+#define ACCEPT_RETRY_TIMEOUT            1
+
 #define IPMI_CONNECT_TIMEOUT            300
 #define IPMI_MAX_TIMEOUT                1800
 #define IPMI_MIN_TIMEOUT                60
-- 
2.43.0


From 4940875831a09363b762008502b23ddd3d57b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 16/37] fix: write out buffered log data upon termination

---
 src/server.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/server.c b/src/server.c
index 5bd18f9..d42f417 100644
--- a/src/server.c
+++ b/src/server.c
@@ -72,6 +72,7 @@ static void open_objs(server_conf_t *conf);
 static void mux_io(server_conf_t *conf);
 static void open_daemon_logfile(server_conf_t *conf);
 static void reopen_logfiles(server_conf_t *conf);
+static void flush_logfiles(server_conf_t *conf);
 static void accept_client(server_conf_t *conf);
 static void resume_accept(server_conf_t *conf);
 
@@ -162,6 +163,7 @@ int main(int argc, char *argv[])
     tpoll_set_mutex(conf->tp, &objs_mutex);
     open_objs(conf);
     mux_io(conf);
+    flush_logfiles(conf);
     x_pthread_mutex_unlock(&objs_mutex);
 
 #if WITH_FREEIPMI
@@ -965,6 +967,25 @@ static void reopen_logfiles(server_conf_t *conf)
 }
 
 
+static void flush_logfiles(server_conf_t *conf)
+{
+/*  Writes out the data still buffered for each of the logfiles in the
+ *    'objs' list.
+ */
+    ListIterator i;
+    obj_t *logfile;
+
+    i = list_iterator_create(conf->objs);
+    while ((logfile = list_next(i))) {
+        if (is_logfile_obj(logfile)) {
+            (void) write_to_obj(logfile);
+        }
+    }
+    list_iterator_destroy(i);
+    return;
+}
+
+
 static void accept_client(server_conf_t *conf)
 {
 /*  Accepts a new client connection on the listening socket.
-- 
2.43.0


From f2068c260ffe8110fbd675dc6cf34872a63d8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:52 +0000
Subject: [PATCH 17/37] fix: do not exit when the attributes of a serial device
 cannot be changed

---
 src/client-tty.c    | 27 ++++++++++++++++++---------
 src/common.c        | 28 +++++++++++++++++-----------
 src/common.h        |  6 +++---
 src/server-obj.c    |  4 +++-
 src/server-serial.c | 20 ++++++++++++++++----
 5 files changed, 57 insertions(+), 28 deletions(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 037e841..808d41b 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -99,9 +99,12 @@ void connect_console(client_conf_t *conf)
     posix_signal(SIGTERM, exit_handler);
     posix_signal(SIGTSTP, SIG_DFL);
 
-    get_tty_mode(&conf->tty, STDIN_FILENO);
-    get_tty_raw(&tty, STDIN_FILENO);
-    set_tty_mode(&tty, STDIN_FILENO);
+    if (get_tty_mode(&conf->tty, STDIN_FILENO) < 0)
+        log_err(errno, "Unable to get terminal attributes on stdin");
+    if (get_tty_raw(&tty, STDIN_FILENO) < 0)
+        log_err(errno, "Unable to get terminal attributes on stdin");
+    if (set_tty_mode(&tty, STDIN_FILENO) < 0)
+        log_err(errno, "Unable to set terminal attributes on stdin");
 
     locally_display_status(conf, "opened");
 
@@ -138,7 +141,8 @@ void connect_console(client_conf_t *conf)
     if (!conf->isClosedByClient)
         locally_display_status(conf, "terminated by server");
 
-    set_tty_mode(&conf->tty, STDIN_FILENO);
+    if (set_tty_mode(&conf->tty, STDIN_FILENO) < 0)
+        log_err(errno, "Unable to set terminal attributes on stdin");
     return;
 }
 
@@ -357,9 +361,11 @@ static int perform_echo_esc(client_conf_t *conf, char c)
 
     if (conf->req->command != CONMAN_CMD_CONNECT)
         return(1);
-    get_tty_mode(&tty, STDIN_FILENO);
+    if (get_tty_mode(&tty, STDIN_FILENO) < 0)
+        log_err(errno, "Unable to get terminal attributes on stdin");
     tty.c_lflag ^= ECHO;
-    set_tty_mode(&tty, STDIN_FILENO);
+    if (set_tty_mode(&tty, STDIN_FILENO) < 0)
+        log_err(errno, "Unable to set terminal attributes on stdin");
     conf->req->enableEcho ^= 1;
     return(1);
 }
@@ -622,13 +628,16 @@ static int perform_suspend_esc(client_conf_t *conf, char c)
     if (!send_esc_seq(conf, c))
         return(0);
     locally_display_status(conf, "suspended");
-    set_tty_mode(&conf->tty, STDIN_FILENO);
+    if (set_tty_mode(&conf->tty, STDIN_FILENO) < 0)
+        log_err(errno, "Unable to set terminal attributes on stdin");
 
     if (kill(getpid(), SIGTSTP) < 0)
         log_err(errno, "Unable to suspend client (pid %d)", (int) getpid());
 
-    get_tty_raw(&tty, STDIN_FILENO);
-    set_tty_mode(&tty, STDIN_FILENO);
+    if (get_tty_raw(&tty, STDIN_FILENO) < 0)
+        log_err(errno, "Unable to get terminal attributes on stdin");
+    if (set_tty_mode(&tty, STDIN_FILENO) < 0)
+        log_err(errno, "Unable to set terminal attributes on stdin");
     locally_display_status(conf, "resumed");
     if (!send_esc_seq(conf, c))
         return(0);
diff --git a/src/common.c b/src/common.c
index 2ab3899..809b619 100644
--- a/src/common.c
+++ b/src/common.c
@@ -137,24 +137,28 @@ void destroy_req(req_t *req)
 }
 
 
-void get_tty_mode(struct termios *tty, int fd)
+int get_tty_mode(struct termios *tty, int fd)
 {
 /*  Gets the tty values associated with 'fd' and stores them in 'tty'.
+ *  Returns 0 on success (or if 'fd' is not a terminal); o/w, returns -1
+ *    with errno set.
  */
     assert(fd >= 0);
     assert(tty != NULL);
 
     if (!isatty(fd))
-        return;
+        return(0);
     if (tcgetattr(fd, tty) < 0)
-        log_err(errno, "tcgetattr() failed on fd=%d", fd);
-    return;
+        return(-1);
+    return(0);
 }
 
 
-void set_tty_mode(struct termios *tty, int fd)
+int set_tty_mode(struct termios *tty, int fd)
 {
 /*  Sets the tty values associated with 'fd' to those stored in 'tty'.
+ *  Returns 0 on success (or if 'fd' is not a terminal); o/w, returns -1
+ *    with errno set.
  *
  *  FIXME: tcsetattr() returns 0 (success) if it is able to perform ANY of the
  *    requested actions.  Therefore, after calling tcsetattr(), one must call
@@ -165,23 +169,25 @@ void set_tty_mode(struct termios *tty, int fd)
     assert(tty != NULL);
 
     if (!isatty(fd))
-        return;
+        return(0);
     if (tcsetattr(fd, TCSAFLUSH, tty) < 0)
-        log_err(errno, "tcgetattr() failed on fd=%d", fd);
-    return;
+        return(-1);
+    return(0);
 }
 
 
-void get_tty_raw(struct termios *tty, int fd)
+int get_tty_raw(struct termios *tty, int fd)
 {
 /*  Gets the tty values associated with 'fd' and stores them in 'tty',
  *    adjusting them to reflect the device is operating in "raw" mode.
  *  Note that the 'fd' device is not placed in raw mode by this call;
  *    to do so, invoke set_tty_mode() with the updated termios struct.
+ *  Returns 0 on success; o/w, returns -1 with errno set.
  */
     assert(tty != NULL);
 
-    get_tty_mode(tty, fd);
+    if (get_tty_mode(tty, fd) < 0)
+        return(-1);
 
     /*  Disable SIGINT on BREAK, CR-to-NL, input parity check,
      *    stripping 8th bit on input, and output flow control.
@@ -213,5 +219,5 @@ void get_tty_raw(struct termios *tty, int fd)
      */
     tty->c_cc[VMIN] = 1;
     tty->c_cc[VTIME] = 0;
-    return;
+    return(0);
 }
diff --git a/src/common.h b/src/common.h
index c8d928e..f7e69ce 100644
--- a/src/common.h
+++ b/src/common.h
@@ -208,11 +208,11 @@ req_t * create_req(void);
 
 void destroy_req(req_t *req);
 
-void get_tty_mode(struct termios *tty, int fd);
+int get_tty_mode(struct termios *tty, int fd);
 
-void set_tty_mode(struct termios *tty, int fd);
+int set_tty_mode(struct termios *tty, int fd);
 
-void get_tty_raw(struct termios *tty, int fd);
+int get_tty_raw(struct termios *tty, int fd);
 
 
 #endif /* !_COMMON_H */
diff --git a/src/server-obj.c b/src/server-obj.c
index 1d92d87..76b936e 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -192,7 +192,9 @@ void destroy_obj(obj_t *obj)
          *    Play it safe and discard any pending output.
          */
         if (obj->fd >= 0) {
-            set_tty_mode(&obj->aux.serial.tty, obj->fd);
+            if (set_tty_mode(&obj->aux.serial.tty, obj->fd) < 0)
+                log_msg(LOG_INFO,
+                    "Unable to restore tty device for console [%s]", obj->name);
             if (tcflush(obj->fd, TCIOFLUSH) < 0)
                 log_msg(LOG_INFO,
                     "Unable to flush tty device for console [%s]", obj->name);
diff --git a/src/server-serial.c b/src/server-serial.c
index 56e11ae..fe40273 100644
--- a/src/server-serial.c
+++ b/src/server-serial.c
@@ -391,7 +391,9 @@ int open_serial_obj(obj_t *serial)
             "Console [%s] disconnected from \"%s\"",
             serial->name, serial->aux.serial.dev);
         tpoll_clear(tp_global, serial->fd, POLLIN | POLLOUT);
-        set_tty_mode(&serial->aux.serial.tty, serial->fd);
+        if (set_tty_mode(&serial->aux.serial.tty, serial->fd) < 0)
+            log_msg(LOG_INFO, "Unable to restore [%s] device \"%s\": %s",
+                serial->name, serial->aux.serial.dev, strerror(errno));
         if (close(serial->fd) < 0)      /* log err and continue */
             log_msg(LOG_WARNING, "Unable to close [%s] device \"%s\": %s",
                 serial->name, serial->aux.serial.dev, strerror(errno));
@@ -431,10 +433,20 @@ int open_serial_obj(obj_t *serial)
      *  FIXME: Re-evaluate this thinking since a SIGHUP should attempt
      *         to resurrect "downed" serial objs.
      */
-    get_tty_mode(&serial->aux.serial.tty, fd);
-    get_tty_raw(&tty, fd);
+    if ((get_tty_mode(&serial->aux.serial.tty, fd) < 0)
+            || (get_tty_raw(&tty, fd) < 0)) {
+        log_msg(LOG_WARNING,
+            "Unable to get attributes of [%s] device \"%s\": %s",
+            serial->name, serial->aux.serial.dev, strerror(errno));
+        goto err;
+    }
     set_serial_opts(&tty, serial, &serial->aux.serial.opts);
-    set_tty_mode(&tty, fd);
+    if (set_tty_mode(&tty, fd) < 0) {
+        log_msg(LOG_WARNING,
+            "Unable to set attributes of [%s] device \"%s\": %s",
+            serial->name, serial->aux.serial.dev, strerror(errno));
+        goto err;
+    }
     serial->fd = fd;
     serial->gotEOF = 0;
     tpoll_set(tp_global, serial->fd, POLLIN);
-- 
2.43.0


From 1209739cb4aaa33d770559798b635261e38a72bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 18/37] fix: do not refuse to reset a console whose previous
 reset command has finished

---
 src/server-esc.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index ece41f1..1727e37 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -470,6 +470,16 @@ static void perform_reset(obj_t *client)
         if (console->resetCmdRef == NULL) {
             continue;
         }
+        if ((console->resetCmdPid > 0) && (kill(console->resetCmdPid, 0) < 0)) {
+            /*
+             *  The previous command has already exited.
+             */
+            if (console->resetCmdTimer > 0) {
+                (void) tpoll_timeout_cancel(tp_global, console->resetCmdTimer);
+            }
+            console->resetCmdPid = 0;
+            console->resetCmdTimer = 0;
+        }
         if (console->resetCmdPid > 0) {
             write_notify_msg(console, LOG_INFO,
                 "Ignoring reset of console [%s]: pid %d still active",
-- 
2.43.0


From 6cc992cf2d55a0ba41026dd039d18c87a8a549a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 19/37] fix: preserve errno in the SIGCHLD handler

---
 src/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.c b/src/server.c
index d42f417..3213cf2 100644
--- a/src/server.c
+++ b/src/server.c
@@ -387,8 +387,10 @@ static void setup_signals(server_conf_t *conf)
 static void sig_chld_handler(int signum)
 {
     pid_t pid;
+    int e = errno;
 
     while ((pid = waitpid(-1, NULL, WNOHANG)) > 0) {;}
+    errno = e;                          /* may have interrupted a system call */
     return;
 }
 
-- 
2.43.0


From b76831ab02bc311367c46b8b47fb9b357c6fdfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 20/37] fix: tell sessions when a serial console is
 disconnected

---
 src/server-obj.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 76b936e..f4ca80b 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -820,6 +820,13 @@ int shutdown_obj(obj_t *obj)
             obj->name, obj->fd);
         return(0);
     }
+    /*  The other types of consoles send this notice when they are reopened,
+     *    but a serial console no longer knows by then that it was connected.
+     */
+    if (is_serial_obj(obj)) {
+        write_notify_msg(obj, LOG_INFO, "Console [%s] disconnected from \"%s\"",
+            obj->name, obj->aux.serial.dev);
+    }
     /*  Close the existing connection.
      */
     tpoll_clear(tp_global, obj->fd, POLLIN | POLLOUT);
-- 
2.43.0


From 7787ed217f5e5cb379bf2f87cf06641d5426664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:55 +0000
Subject: [PATCH 21/37] fix: do not replay stale data after a log was shut down
 by a write error

---
 src/server-obj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index f4ca80b..e73e25c 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -848,6 +848,7 @@ int shutdown_obj(obj_t *obj)
     x_pthread_mutex_lock(&obj->bufLock);
     n = num_bytes_buffered(obj);
     obj->bufInPtr = obj->bufOutPtr = obj->buf;
+    obj->gotBufWrap = 0;
     obj->gotEOF = 0;
     x_pthread_mutex_unlock(&obj->bufLock);
     if (n > 0) {
-- 
2.43.0


From 7f43969811a1dc6400ceac2e9058089fc493504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:08 +0000
Subject: [PATCH 22/37] fix: do not read past the end of a format string that
 ends with '%'

format_obj_string() advanced its source pointer beyond the terminating NUL
when the last character of the format string was a '%', and then carried on
with whatever followed the string in memory.
---
 src/server-obj.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index e73e25c..b46b3b8 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -331,12 +331,13 @@ int format_obj_string(char *buf, int buflen, obj_t *obj, const char *fmt)
     get_localtime(&t, &tm);
 
     while (((c = *psrc++) != '\0') && (n > 0)) {
-        if ((c != '%') || ((*pspec = *psrc++) == '\0')) {
+        if ((c != '%') || ((*pspec = *psrc) == '\0')) {
             if (--n > 0) {
                 *pdst++ = c;
             }
         }
         else {
+            psrc++;
             switch (*pspec) {
             case 'N':                   /* console name */
                 if (!obj)
-- 
2.43.0


From 6c57f8a7c764c88a86a9638362cd86dc2c99c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:08 +0000
Subject: [PATCH 23/37] fix: do not lose a SIGHUP that arrives while logs are
 being re-opened

The flag was cleared after the logs had been re-opened, so a second signal
that arrived in the meantime was forgotten, and a log renamed in between
was never re-opened.
---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 3213cf2..d16b101 100644
--- a/src/server.c
+++ b/src/server.c
@@ -790,8 +790,8 @@ static void mux_io(server_conf_t *conf)
              *    and reset reconnect timers of "downed" telnet objs.
              */
             log_msg(LOG_NOTICE, "Performing reconfig on signal=%d", reconfig);
+            reconfig = 0;               /* before acting on it, not after */
             reopen_logfiles(conf);
-            reconfig = 0;
         }
         while ((n = tpoll(conf->tp, -1)) < 0) {
             if (errno != EINTR) {
-- 
2.43.0


From 3bbbff170bda2f9eae6fa1092213b3a649693bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:42 +0000
Subject: [PATCH 24/37] fix: act on a signal that arrives just before poll() is
 called

The daemon tests its signal flags and then blocks in poll().  A SIGHUP,
SIGINT, or SIGTERM delivered in between, or while poll() is being called
again for a change of the set of descriptors, went unnoticed until something
else woke the daemon up.  The handlers now also write to a pipe that is part
of the polled set.
---
 src/server.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/server.c b/src/server.c
index d16b101..4667dbb 100644
--- a/src/server.c
+++ b/src/server.c
@@ -59,6 +59,7 @@ static void end_daemonize(int fd);
 static void setup_coredump(server_conf_t *conf);
 static void setup_signals(server_conf_t *conf);
 static void sig_chld_handler(int signum);
+static void wake_mux_io(void);
 static void sig_hup_handler(int signum);
 static void exit_handler(int signum);
 static void coredump_handler(int signum);
@@ -80,6 +81,11 @@ static void resume_accept(server_conf_t *conf);
  */
 static volatile sig_atomic_t done = 0;
 static volatile sig_atomic_t reconfig = 0;
+/*  A byte is written here by the handlers of the above signals since a signal
+ *    that arrives after its flag has been tested but before poll() has been
+ *    called would not interrupt poll().
+ */
+static int signal_fds[2] = { -1, -1 };
 static int coredump = 0;
 static char coredumpdir[PATH_MAX];
 
@@ -366,6 +372,14 @@ static void setup_coredump(server_conf_t *conf)
 
 static void setup_signals(server_conf_t *conf)
 {
+    if (pipe(signal_fds) < 0) {
+        log_err(errno, "Unable to create signal pipe");
+    }
+    set_fd_nonblocking(signal_fds[0]);
+    set_fd_closed_on_exec(signal_fds[0]);
+    set_fd_nonblocking(signal_fds[1]);
+    set_fd_closed_on_exec(signal_fds[1]);
+
     posix_signal(SIGCHLD, sig_chld_handler);
     posix_signal(SIGHUP, sig_hup_handler);
     posix_signal(SIGINT, exit_handler);
@@ -395,9 +409,20 @@ static void sig_chld_handler(int signum)
 }
 
 
+static void wake_mux_io(void)
+{
+    int e = errno;
+
+    (void) !write(signal_fds[1], "", 1);
+    errno = e;                          /* may have interrupted a system call */
+    return;
+}
+
+
 static void sig_hup_handler(int signum)
 {
     reconfig = signum;
+    wake_mux_io();
     return;
 }
 
@@ -405,6 +430,7 @@ static void sig_hup_handler(int signum)
 static void exit_handler(int signum)
 {
     done = signum;
+    wake_mux_io();
     return;
 }
 
@@ -772,6 +798,7 @@ static void mux_io(server_conf_t *conf)
     obj_t *obj;
     int inevent_fd;
     int rvr, rvw;
+    char buf[64];
 
     assert(conf->tp != NULL);
     assert(!list_is_empty(conf->objs));
@@ -780,6 +807,7 @@ static void mux_io(server_conf_t *conf)
     if (inevent_fd >= 0) {
         tpoll_set(conf->tp, inevent_get_fd(), POLLIN);
     }
+    tpoll_set(conf->tp, signal_fds[0], POLLIN);
     i = list_iterator_create(conf->objs);
 
     while (!done) {
@@ -801,6 +829,11 @@ static void mux_io(server_conf_t *conf)
                 break;
             }
         }
+        if ((n > 0) &&
+                (tpoll_is_set(conf->tp, signal_fds[0], POLLIN) > 0)) {
+            n--;
+            while (read(signal_fds[0], buf, sizeof(buf)) > 0) {;}
+        }
         if ((n > 0) &&
                 (tpoll_is_set(conf->tp, conf->ld, POLLIN) > 0)) {
             n--;
-- 
2.43.0


From 29009c5ebf7c7bb3dba7ed4f26bd3e601f2cdfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:59 +0000
Subject: [PATCH 25/37] fix: sort console names with large trailing numbers
 numerically

compare_objs() converted the trailing digits of console names with atoi()
and subtracted the results, which is undefined for numbers beyond the
range of an int and ordered names such as node20240101000001 wrongly.
---
 src/server-obj.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index b46b3b8..1de6626 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -55,6 +55,7 @@ extern tpoll_t tp_global;               /* defined in server.c */
 
 
 static char * sanitize_file_string(char *str);
+static int compare_int_strs(char *int1, char *int2);
 static char * find_trailing_int_str(char *str);
 #ifndef NDEBUG
 static int validate_obj_links(obj_t *obj);
@@ -475,7 +476,7 @@ int compare_objs(obj_t *obj1, obj_t *obj2)
 
     while (*str1) {
         if ((str1 == int1) && (str2 == int2))
-            return(atoi(int1) - atoi(int2));
+            return(compare_int_strs(int1, int2));
         else if (*str1 == *str2)
             str1++, str2++;
         else
@@ -485,6 +486,25 @@ int compare_objs(obj_t *obj1, obj_t *obj2)
 }
 
 
+static int compare_int_strs(char *int1, char *int2)
+{
+/*  Compares the unsigned integer strings (int1) and (int2) numerically.
+ *    They are not converted since they may exceed the range of an integer.
+ *  Returns less-than-zero if (int1 < int2), zero if (int1 == int2),
+ *    and greater-than-zero if (int1 > int2).
+ */
+    size_t len1, len2;
+
+    int1 += strspn(int1, "0");
+    int2 += strspn(int2, "0");
+    len1 = strlen(int1);
+    len2 = strlen(int2);
+    if (len1 != len2)
+        return((len1 < len2) ? -1 : 1);
+    return(strcmp(int1, int2));
+}
+
+
 static char * find_trailing_int_str(char *str)
 {
 /*  Searches string 'str' for a trailing integer.
-- 
2.43.0


From b913937e9c77f349dd8566c6bab2ce5f2f4d43bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:59 +0000
Subject: [PATCH 26/37] fix: do not skip the line after a timestamp interval
 without a qualifier

The end-of-line token following the interval was consumed without ending
the directive, so the next line of the configuration (typically a console)
was parsed as part of it and rejected.
---
 src/server-conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index d836f8d..2f64a8f 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -1425,7 +1425,7 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
             else {
                 conf->tStampMinutes = n;
                 if ((lex_next(l) == LEX_EOF) || (lex_prev(l) == LEX_EOL)) {
-                    ; /* no-op */
+                    done = 1;           /* end of directive */
                 }
                 else if (lex_prev(l) == LEX_STR) {
                     if (lex_text(l)[1] != '\0') {
-- 
2.43.0


From 8954a8c638fc95d01cc7a087f5f6556f0b04f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:59 +0000
Subject: [PATCH 27/37] fix: do not spin while waiting for a timer more than 24
 days away

The time until the next timer was computed in milliseconds as an int,
which overflows for a timestamp interval beyond 24 days, whereupon poll()
was called without waiting until the difference fits again.
---
 src/tpoll.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index a6c2679..d87d57b 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -28,6 +28,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <fcntl.h>
 #include <poll.h>
 #include <pthread.h>
@@ -939,7 +940,7 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
  *  If either is NULL, the current time will be used in its place.
  */
     struct timeval tv;
-    int            ms;
+    long long      ms;
 
     if (!tvp0 || !tvp1) {
         if (gettimeofday (&tv, NULL) < 0) {
@@ -952,7 +953,7 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
             tvp1 = &tv;
         }
     }
-    ms = ( (tvp1->tv_sec  - tvp0->tv_sec)  * 1000 ) +
+    ms = ( (long long) (tvp1->tv_sec - tvp0->tv_sec)  * 1000 ) +
          ( (tvp1->tv_usec - tvp0->tv_usec) / 1000 ) ;
     /*
      *  Round to the next millisecond.
@@ -965,5 +966,14 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
             && (tvp1->tv_usec < tvp0->tv_usec)) {
         ms--;
     }
-    return (ms);
+    /*  Limit the difference to what fits into the timeout passed to poll();
+     *    a timer that is still further away is polled for again afterwards.
+     */
+    if (ms > INT_MAX) {
+        ms = INT_MAX;
+    }
+    else if (ms < INT_MIN) {
+        ms = INT_MIN;
+    }
+    return ((int) ms);
 }
-- 
2.43.0


From 97e193779155cee1fbf224d0254f5835755a6278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:39 +0000
Subject: [PATCH 28/37] fix: do not report success when the daemon is killed
 while starting

---
 src/server.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/server.c b/src/server.c
index 4667dbb..033475b 100644
--- a/src/server.c
+++ b/src/server.c
@@ -116,7 +116,7 @@ int main(int argc, char *argv[])
     tp_global = conf->tp;
 
     process_cmdline(conf, argc, argv);
-    if (!conf->enableForeground) {
+    if (!conf->enableForeground && (conf->throwSignal < 0)) {
         begin_daemonize(&fd, &pgid);
     }
     process_config(conf);
@@ -250,7 +250,12 @@ static void begin_daemonize(int *fd_ptr, pid_t *pgid_ptr)
         if ((n = read(fds[0], &priority, sizeof(priority))) < 0) {
             log_err(errno, "Unable to read status from grandchild process");
         }
-        if ((n > 0) && (priority >= 0)) {
+        /*  The grandchild process has terminated without returning its status.
+         */
+        if (n == 0) {
+            log_err(0, "Daemon terminated unexpectedly during startup");
+        }
+        if (priority >= 0) {
             if ((n = read(fds[0], ebuf, sizeof(ebuf))) < 0) {
                 log_err(errno,
                     "Unable to read error message from grandchild process");
@@ -304,6 +309,7 @@ static void end_daemonize(int fd)
  *    where 'fd' is the value returned by begin_daemonize().
  */
     int dev_null;
+    const signed char status = -1;      /* success; see log_err() for errors */
 
     /*  Ensure process does not keep a directory in use.
      *  Avoid relative pathname from this point on!
@@ -332,8 +338,13 @@ static void end_daemonize(int fd)
      */
     log_set_err_pipe(-1);
 
-    /*  Signal grandparent process to terminate.
+    /*  Signal grandparent process to terminate.  An explicit status tells it
+     *    apart from the close of this pipe when a process is killed.
+     *    There is no one to notify if the grandparent is already gone.
      */
+    if (fd >= 0) {
+        while ((write(fd, &status, sizeof(status)) < 0) && (errno == EINTR)) {;}
+    }
     if ((fd >= 0) && (close(fd) < 0)) {
         log_err(errno, "Unable to close write-pipe in grandchild process");
     }
-- 
2.43.0


From 6103a076747ef3ff6c019284053e172d8f3eea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:02 +0000
Subject: [PATCH 29/37] fix: report failures of the last start-up steps to the
 invoking process

---
 src/server.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server.c b/src/server.c
index 033475b..02c6ce6 100644
--- a/src/server.c
+++ b/src/server.c
@@ -155,16 +155,18 @@ int main(int argc, char *argv[])
         VERSION, (int) getpid());
     log_msg(LOG_INFO, "Listening on TCP port %d", conf->port);
 
-    if (!conf->enableForeground) {
-        end_daemonize(fd);
-    }
-
 #if WITH_FREEIPMI
     ipmi_init(conf->numIpmiObjs);
 #endif /* WITH_FREEIPMI */
 
     setup_nofile_limit(conf);
 
+    /*  Errors beyond this point are not returned to the invoking process.
+     */
+    if (!conf->enableForeground) {
+        end_daemonize(fd);
+    }
+
     x_pthread_mutex_lock(&objs_mutex);
     tpoll_set_mutex(conf->tp, &objs_mutex);
     open_objs(conf);
-- 
2.43.0


From 3acca8f8c12954807b4410e7343746ad2c95db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:52 +0000
Subject: [PATCH 30/37] fix: remove the PID file when the daemon exits on an
 error

---
 src/server-conf.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/server-conf.c b/src/server-conf.c
index 2f64a8f..8efb48e 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -192,10 +192,17 @@ static void parse_global_directive(server_conf_t *conf, Lex l);
 static void parse_server_directive(server_conf_t *conf, Lex l);
 static int read_pidfile(const char *pidfile);
 static int write_pidfile(const char *pidfile);
+static void remove_pidfile(void);
 static int lookup_syslog_priority(const char *priority);
 static int lookup_syslog_facility(const char *facility);
 
 
+/*  Pidfile to be removed when the process that created it exits on an error.
+ */
+static const char * pidfile_name = NULL;
+static pid_t pidfile_pid = 0;
+
+
 server_conf_t * create_server_conf(void)
 {
     server_conf_t *conf;
@@ -280,6 +287,7 @@ void destroy_server_conf(server_conf_t *conf)
         return;
     }
     if (conf->pidFileName) {
+        pidfile_name = NULL;
         if (unlink(conf->pidFileName) < 0) {
             log_msg(LOG_ERR, "Unable to delete pid file \"%s\": %s",
                 conf->pidFileName, strerror(errno));
@@ -475,6 +483,11 @@ void process_config(server_conf_t *conf)
             free(conf->pidFileName);
             conf->pidFileName = NULL;   /* prevent unlink() at exit */
         }
+        else {
+            pidfile_name = conf->pidFileName;
+            pidfile_pid = getpid();
+            (void) atexit(remove_pidfile);
+        }
     }
     return;
 }
@@ -1574,6 +1587,17 @@ static int write_pidfile(const char *pidfile)
 }
 
 
+static void remove_pidfile(void)
+{
+/*  Removes the pidfile if this process created it and has not yet removed it.
+ */
+    if ((pidfile_name != NULL) && (pidfile_pid == getpid())) {
+        (void) unlink(pidfile_name);
+    }
+    return;
+}
+
+
 static int lookup_syslog_priority(const char *priority)
 {
 /*  Returns the numeric id associated with the specified syslog priority,
-- 
2.43.0


From e4faca61936b1d8539e8b01d317721df28d7c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 31/37] fix: hold the lock on the configuration until the
 daemon has let go of everything

---
 src/server-conf.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 8efb48e..b5ff7a9 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -293,13 +293,6 @@ void destroy_server_conf(server_conf_t *conf)
                 conf->pidFileName, strerror(errno));
         }
     }
-    if (conf->fd >= 0) {
-        if (close(conf->fd) < 0) {
-            log_msg(LOG_ERR, "Unable to close config file \"%s\": %s",
-                conf->confFileName, strerror(errno));
-        }
-        conf->fd = -1;
-    }
     if (conf->ld >= 0) {
         if (close(conf->ld) < 0) {
             log_msg(LOG_ERR, "Unable to close listening socket: %s",
@@ -313,6 +306,17 @@ void destroy_server_conf(server_conf_t *conf)
     if (conf->tp) {
         tpoll_destroy(conf->tp);
     }
+    /*  The lock on the config file is released by closing it.  It must be held
+     *    until everything else has been let go of; otherwise, another daemon
+     *    could start while this one still holds the console devices and logs.
+     */
+    if (conf->fd >= 0) {
+        if (close(conf->fd) < 0) {
+            log_msg(LOG_ERR, "Unable to close config file \"%s\": %s",
+                conf->confFileName, strerror(errno));
+        }
+        conf->fd = -1;
+    }
     destroy_string(conf->confFileName);
     destroy_string(conf->coreDumpDir);
     destroy_string(conf->cwd);
-- 
2.43.0


From 15ae98cf5068cc89da675e74ce52c3c9591129d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 32/37] fix: recognize a client escape character above 0x7f

---
 src/client-tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 808d41b..bc79773 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -166,7 +166,7 @@ static int read_from_stdin(client_conf_t *conf)
     static enum { CHR, EOL, ESC } mode = EOL;
     int n;
     unsigned char c;
-    char esc = conf->escapeChar;
+    unsigned char esc = conf->escapeChar;
     unsigned char buf[4];
     unsigned char *p = buf;
     unsigned char *q, *r;
-- 
2.43.0


From 75ec399075a2c8827fe9fb2f2931dfa3a31fc70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 33/37] fix: do not accept a response that was cut off by the
 end of the connection

---
 src/client-sock.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client-sock.c b/src/client-sock.c
index 1d66111..71da7e8 100644
--- a/src/client-sock.c
+++ b/src/client-sock.c
@@ -267,6 +267,13 @@ int recv_rsp(client_conf_t *conf)
             conf->req->host, conf->req->port);
         return(-1);
     }
+    else if (buf[n - 1] != '\n') {
+        conf->errnum = CONMAN_ERR_LOCAL;
+        conf->errmsg = create_format_string(
+            "Received incomplete response from <%s:%d>",
+            conf->req->host, conf->req->port);
+        return(-1);
+    }
 
     l = lex_create(buf, proto_strs);
     while (!done) {
-- 
2.43.0


From 4d63aae4e56c7395e10ae7a842dcc83f8f18d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 34/37] fix: restore the terminal when an error ends the client
 session

---
 src/client-tty.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/client-tty.c b/src/client-tty.c
index bc79773..3866c25 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -44,6 +44,7 @@
 
 
 static void exit_handler(int signum);
+static void restore_tty(void);
 static int read_from_stdin(client_conf_t *conf);
 static int write_to_stdout(client_conf_t *conf);
 static int send_esc_seq(client_conf_t *conf, char c);
@@ -66,6 +67,10 @@ static void locally_display_status(client_conf_t *conf, char *msg);
 
 static int done = 0;
 
+/*  Terminal mode to be restored should the client exit during a session.
+ */
+static struct termios *tty_saved = NULL;
+
 
 void connect_console(client_conf_t *conf)
 {
@@ -103,6 +108,9 @@ void connect_console(client_conf_t *conf)
         log_err(errno, "Unable to get terminal attributes on stdin");
     if (get_tty_raw(&tty, STDIN_FILENO) < 0)
         log_err(errno, "Unable to get terminal attributes on stdin");
+    if (atexit(restore_tty) != 0)
+        log_err(0, "Unable to register exit handler");
+    tty_saved = &conf->tty;
     if (set_tty_mode(&tty, STDIN_FILENO) < 0)
         log_err(errno, "Unable to set terminal attributes on stdin");
 
@@ -143,6 +151,18 @@ void connect_console(client_conf_t *conf)
 
     if (set_tty_mode(&conf->tty, STDIN_FILENO) < 0)
         log_err(errno, "Unable to set terminal attributes on stdin");
+    tty_saved = NULL;
+    return;
+}
+
+
+static void restore_tty(void)
+{
+/*  Exit-handler to restore the terminal if an error ends the session.
+ */
+    if (tty_saved)
+        (void) set_tty_mode(tty_saved, STDIN_FILENO);
+    tty_saved = NULL;
     return;
 }
 
-- 
2.43.0


From 9fd84f17f92b8453afc012a18bfeea3d59044e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:51 +0000
Subject: [PATCH 35/37] fix: notice SIGTERM between the check and the wait of
 the client's loop

---
 src/client-tty.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 3866c25..3237491 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -32,6 +32,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/select.h>
 #include <sys/socket.h>
 #include <termios.h>
 #include <unistd.h>
@@ -78,6 +79,7 @@ void connect_console(client_conf_t *conf)
  */
     struct termios tty;
     fd_set rset, rsetBak;
+    sigset_t sigmask, sigmaskBak;
     int n;
 
     assert(conf->req->sd >= 0);
@@ -120,9 +122,19 @@ void connect_console(client_conf_t *conf)
     FD_SET(STDIN_FILENO, &rsetBak);
     FD_SET(conf->req->sd, &rsetBak);
 
+    /*  Block SIGTERM except while waiting within pselect().  Otherwise, a signal
+     *    arriving between the check of 'done' and the wait for I/O would go
+     *    unnoticed until further I/O is available.
+     */
+    if ((sigemptyset(&sigmask) < 0) || (sigaddset(&sigmask, SIGTERM) < 0)
+            || (sigprocmask(SIG_BLOCK, &sigmask, &sigmaskBak) < 0))
+        log_err(errno, "Unable to block signals");
+    sigdelset(&sigmaskBak, SIGTERM);
+
     while (!done) {
         rset = rsetBak;
-        while ((n = select(conf->req->sd+1, &rset, NULL, NULL, NULL)) <= 0) {
+        while ((n = pselect(conf->req->sd+1, &rset, NULL, NULL, NULL,
+                &sigmaskBak)) <= 0) {
             if (errno != EINTR)
                 log_err(errno, "Unable to multiplex I/O");
             else if (done)
-- 
2.43.0


From e4a4110c062038b3cab9a39ac5d19b3cc6aa6ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:42 +0000
Subject: [PATCH 36/37] fix: tpoll: make room for the signaling pipe's own
 descriptor

tpoll_create() indexed its table of 256 entries with the descriptor of the
signaling pipe; started with more inherited descriptors than that, conmand
wrote past the end of the table.
---
 src/tpoll.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tpoll.c b/src/tpoll.c
index d87d57b..6de086f 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -167,6 +167,14 @@ tpoll_create (int n)
     if (pipe (tp->fd_pipe) < 0) {
         goto err;
     }
+    /*  The fd table must have room for the "signaling pipe" itself, whose
+     *    file descriptors are large if many others have been inherited.
+     */
+    if ((tp->fd_pipe[ 0 ] >= tp->num_fds_alloc)
+            && (_tpoll_grow (tp, tp->fd_pipe[ 0 ] + 1) < 0)) {
+        goto err;
+    }
+    tp->is_realloced = false;
     for (i = 0; i < 2; i++) {
         if ((fval = fcntl (tp->fd_pipe[ i ], F_GETFL, 0)) < 0) {
             goto err;
-- 
2.43.0


From baa4c3092e320fad41b6135024a21159497e7ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:07 +0000
Subject: [PATCH 37/37] fix: raw mode: also disable INLCR, IGNCR and PARMRK

A serial line (or terminal) on which one of these input flags had been left
set kept it in what is meant to be raw mode, so newlines and carriage returns
were translated or dropped and 0xFF bytes doubled.
---
 src/common.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common.c b/src/common.c
index 809b619..8ef6248 100644
--- a/src/common.c
+++ b/src/common.c
@@ -189,10 +189,11 @@ int get_tty_raw(struct termios *tty, int fd)
     if (get_tty_mode(tty, fd) < 0)
         return(-1);
 
-    /*  Disable SIGINT on BREAK, CR-to-NL, input parity check,
-     *    stripping 8th bit on input, and output flow control.
+    /*  Disable SIGINT on BREAK, CR-to-NL, NL-to-CR, ignoring CR, input parity
+     *    check and marking, stripping 8th bit on input, and output flow control.
      */
-    tty->c_iflag &= ~(BRKINT | ICRNL | INPCK | ISTRIP | IXON);
+    tty->c_iflag &= ~(BRKINT | ICRNL | IGNCR | INLCR | INPCK | ISTRIP | IXON
+        | PARMRK);
 
     /*  Disable output processing.
      */
-- 
2.43.0

