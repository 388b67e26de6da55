From 47e4bbb56c9beae7775ac9688c7650c1bf77eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 01/62] fix: do not overflow the PyInit symbol name buffer of
 extensions and subprotocols

The buffer holds 'PyInit_' plus the module name, but the whole file name
including its '.so' suffix was printed into it.
---
 src/extensions.c   | 2 +-
 src/subprotocols.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions.c b/src/extensions.c
index 456760f..a93bc38 100644
--- a/src/extensions.c
+++ b/src/extensions.c
@@ -140,7 +140,7 @@ void WSS_load_extensions(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
+        sprintf(pyname, "PyInit_%.*s", (int)name_length, name);
         if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
             proto->pyinit(); 
         }
diff --git a/src/subprotocols.c b/src/subprotocols.c
index f4dfc96..bef6a00 100644
--- a/src/subprotocols.c
+++ b/src/subprotocols.c
@@ -130,7 +130,7 @@ void WSS_load_subprotocols(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
+        sprintf(pyname, "PyInit_%.*s", (int)name_length, name);
         if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
             proto->pyinit(); 
         }
-- 
2.43.0


From e8113d87aa6d8f4f091511ed12fd525a3267e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 02/62] fix: keep a session alive for as long as some job is
 using it

WSS_session_find returned a session that could be freed before the caller
registered its job, WSS_work used the session after disconnecting it and
after releasing its job, and WSS_disconnect waited for the job of its own
caller in several error paths. Now WSS_session_find registers the job, the
session is removed from the hash table before waiting for the remaining jobs
and subprotocols are only informed once, without the session table locked.
---
 include/session.h |  4 ++-
 include/ssl.h     |  2 +-
 src/message.c     |  2 --
 src/session.c     | 42 ++++++++++++++++++----------
 src/ssl.c         | 21 ++++----------
 src/worker.c      | 71 +++++++++++++++++++----------------------------
 6 files changed, 67 insertions(+), 75 deletions(-)

diff --git a/include/session.h b/include/session.h
index 3055e46..05ee2ac 100644
--- a/include/session.h
+++ b/include/session.h
@@ -160,7 +160,9 @@ wss_error_t WSS_session_delete_all();
 wss_error_t WSS_session_all(void (*callback)(wss_session_t *));
 
 /**
- * Function that finds a session using the filedescriptor of the session.
+ * Function that finds a session using the filedescriptor of the session. A job
+ * is registered for the session, hence the session is not deleted until the
+ * caller calls WSS_session_jobs_dec.
  *
  * @param 	fd 	[int] 		        "The filedescriptor associated to some session"
  * @return 		[wss_session_t *] 	"Returns session if successful, otherwise NULL"
diff --git a/include/ssl.h b/include/ssl.h
index 6e55b39..817e548 100644
--- a/include/ssl.h
+++ b/include/ssl.h
@@ -100,7 +100,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session);
  * @param   lock	[pthread_rwlock_t *] 	"The read/write session lock"
  * @return 			[wss_error_t]           "An error or success"
  */
-wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock);
+wss_error_t WSS_session_ssl_free(wss_session_t *session);
 
 /**
  * Function creates a sha1 hash of the key.
diff --git a/src/message.c b/src/message.c
index 6e45c1d..4fcf76b 100644
--- a/src/message.c
+++ b/src/message.c
@@ -111,8 +111,6 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
         return;
     }
 
-    WSS_session_jobs_inc(session);
-
     if (NULL != session->ssl && session->ssl_connected) {
         server = servers.https;
     }
diff --git a/src/session.c b/src/session.c
index d3a1039..808602e 100644
--- a/src/session.c
+++ b/src/session.c
@@ -69,12 +69,14 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
 
     WSS_log_trace("Adding session");
 
-    if ( unlikely(NULL != (session = WSS_session_find(fd))) ) {
+    if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
+        WSS_log_error("Unable to lock session lock: %s", strerror(err));
         return NULL;
     }
 
-    if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
-        WSS_log_error("Unable to lock session lock: %s", strerror(err));
+    HASH_FIND_INT(sessions, &fd, session);
+    if ( unlikely(NULL != session) ) {
+        pthread_rwlock_unlock(&lock);
         return NULL;
     }
 
@@ -88,7 +90,10 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
     
     if ( unlikely((err = pthread_mutexattr_settype(&session->lock_attr, PTHREAD_MUTEX_RECURSIVE)) != 0) ) {
         WSS_log_error("Unable to initialize session locks attributes: %s", strerror(err));
+        pthread_mutexattr_destroy(&session->lock_attr);
         WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
     }
 
     if ( unlikely((err = pthread_mutex_init(&session->lock, &session->lock_attr)) != 0) ) {
@@ -148,7 +153,6 @@ static wss_error_t session_delete(wss_session_t *session) {
     size_t j;
 
     if ( likely(NULL != session) ) {
-        pthread_mutex_unlock(&session->lock);
         if ( unlikely((err = pthread_mutex_destroy(&session->lock)) != 0) ) {
             err = WSS_SESSION_LOCK_DESTROY_ERROR;
         }
@@ -204,13 +208,9 @@ static wss_error_t session_delete(wss_session_t *session) {
         WSS_free((void **) &session->ringbuf);
 
         if (NULL != session->ssl) {
-            err = WSS_session_ssl_free(session, &lock);
+            err = WSS_session_ssl_free(session);
         }
 
-        WSS_log_trace("Deleting client from hash table");
-
-        HASH_DEL(sessions, session);
-
         WSS_log_trace("Closing client filedescriptor");
         if ( unlikely(close(session->fd) < 0) ) {
             WSS_log_error("Unable to close clients filedescriptor: %s", strerror(err));
@@ -237,14 +237,16 @@ wss_error_t WSS_session_delete_no_lock(wss_session_t *session) {
 
     WSS_log_trace("Deleting session");
 
+    HASH_DEL(sessions, session);
+
     err = session_delete(session);
 
     return err;
 }
 
 /**
- * Function that frees the allocated memory and removes the session from the 
- * hashtable.
+ * Function that removes the session from the hashtable, waits for the jobs that
+ * already found the session to be done with it and frees the allocated memory.
  *
  * @param 	session	[wss_session_t *] 	"The session to be deleted"
  * @return 		    [wss_error_t] 	    "The error status"
@@ -259,11 +261,16 @@ wss_error_t WSS_session_delete(wss_session_t *session) {
         return WSS_SESSION_LOCK_ERROR;
     }
 
-    err = session_delete(session);
+    WSS_log_trace("Deleting client from hash table");
+
+    HASH_DEL(sessions, session);
 
     pthread_rwlock_unlock(&lock);
 
-    return err;
+    // No new job can find the session from here on
+    WSS_session_jobs_wait(session);
+
+    return session_delete(session);
 }
 
 /**
@@ -285,6 +292,7 @@ wss_error_t WSS_session_delete_all() {
     err = WSS_SUCCESS;
 
     HASH_ITER(hh, sessions, session, tmp) {
+        HASH_DEL(sessions, session);
         tmp_err = session_delete(session);
         if ( likely(err == WSS_SUCCESS) ) {
             err = tmp_err;
@@ -427,7 +435,9 @@ wss_error_t WSS_session_all(void (*callback)(wss_session_t *)) {
 }
 
 /**
- * Function that finds a session using the filedescriptor of the session.
+ * Function that finds a session using the filedescriptor of the session. A job
+ * is registered for the session, hence the session is not deleted until the
+ * caller calls WSS_session_jobs_dec.
  *
  * @param 	fd 	[int] 		        "The filedescriptor associated to some session"
  * @return 		[wss_session_t *] 	"Returns session if successful, otherwise NULL"
@@ -445,6 +455,10 @@ wss_session_t *WSS_session_find(int fd) {
 
     HASH_FIND_INT(sessions, &fd, session);
 
+    if ( NULL != session && unlikely(WSS_SUCCESS != WSS_session_jobs_inc(session)) ) {
+        session = NULL;
+    }
+
     pthread_rwlock_unlock(&lock);
 
     return session;
diff --git a/src/ssl.c b/src/ssl.c
index 8761990..cb973ee 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -569,7 +569,7 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
         }
 #endif
 
-        WSS_disconnect(server, session);
+        session->closing = true;
         return;
     }
 
@@ -602,7 +602,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = SSL_new(server->ssl_ctx))) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -610,7 +609,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(SSL_set_fd(session->ssl, session->fd) != 1) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -625,7 +623,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = wolfSSL_new(server->ssl_ctx))) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -633,7 +630,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(wolfSSL_set_fd(session->ssl, session->fd) != 1) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -650,10 +646,9 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
  * Function frees SSL session instance that was used to serve over https.
  *
  * @param   session	[wss_session_t *] 	    "The session instance"
- * @param   lock	[pthread_rwlock_t *] 	"The read/write session lock"
  * @return 			[wss_error_t]           "An error or success"
  */
-wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock) {
+wss_error_t WSS_session_ssl_free(wss_session_t *session) {
     int err = WSS_SUCCESS;
 
 #if defined(USE_OPENSSL)
@@ -662,11 +657,9 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                // The close_notify is sent as a best effort
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
@@ -691,11 +684,9 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                // The close_notify is sent as a best effort
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
diff --git a/src/worker.c b/src/worker.c
index e98b6ac..f4cc5f6 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -392,32 +392,28 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
 
 /**
  * Function that disconnects a session and freeing any allocated memory used by
- * the session.
+ * the session. The caller must hold the lock of the session and have a job
+ * registered for it, both are released.
  *
  * @param 	server	[wss_server_t *] 	"The server structure"
  * @param 	session	[wss_session_t *] 	"The session structure"
  * @return          [void]
  */
 void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
-    int i;
     wss_error_t err;
     bool dc;
 
-    // If we are already closing
-    WSS_session_is_disconnecting(session, &dc);
-    if (dc) {
-        return;
-    }
-
-    WSS_session_jobs_wait(session);
-
+    session->closing = true;
     session->state = CLOSING;
 
-    WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
+    WSS_session_is_disconnecting(session, &dc);
+
+    pthread_mutex_unlock(&session->lock);
+    WSS_session_jobs_dec(session);
 
-    if ( NULL != session->header && session->header->ws_protocol != NULL ) {
-        WSS_log_trace("Informing subprotocol about session close");
-        session->header->ws_protocol->close(session->fd);
+    // If we are already closing
+    if (dc) {
+        return;
     }
 
     WSS_log_trace("Removing poll filedescriptor from eventlist");
@@ -432,21 +428,7 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
         WSS_log_info("Session %d disconnected from ip: %s:%d using HTTPS request", session->fd, session->ip, session->port);
     }
 
-    for (i = 0; i < session->jobs; i++) {
-        pthread_mutex_unlock(&session->lock);
-    }
-
     if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete(session))) ) {
-        switch (err) {
-            case WSS_SSL_SHUTDOWN_READ_ERROR:
-                session->event = READ;
-                return;
-            case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                session->event = WRITE;
-                return;
-            default:
-                break;
-        }
         WSS_log_error("Unable to delete client session, received error code: %d", err);
         return;
     }
@@ -528,11 +510,15 @@ void WSS_connect(wss_server_t *server) {
 
         if (NULL != server->ssl_ctx) {
             if (! WSS_session_ssl(server, session)) {
-                WSS_free((void **)&ringbuf);
-                return;
+                session->closing = true;
+            } else {
+                WSS_ssl_handshake(server, session);
             }
 
-            WSS_ssl_handshake(server, session);
+            if ( unlikely(session->closing) ) {
+                WSS_disconnect(server, session);
+                continue;
+            }
         } else {
             session->state = IDLE;
 
@@ -544,8 +530,8 @@ void WSS_connect(wss_server_t *server) {
 
         }
 
-        WSS_session_jobs_dec(session);
         pthread_mutex_unlock(&session->lock);
+        WSS_session_jobs_dec(session);
     }
 }
 
@@ -1442,13 +1428,16 @@ void WSS_work(void *args) {
         return;
     }
 
-    WSS_log_trace("Incrementing session jobs");
-
-    WSS_session_jobs_inc(session);
     pthread_mutex_lock(&session->lock);
 
     session->event = NONE;
 
+    // Another job has already decided to close the session
+    if ( unlikely(session->closing) ) {
+        WSS_disconnect(server, session);
+        return;
+    }
+
     WSS_log_trace("Checking session state");
 
     // We first check if session was in the middle of performing an IO task but
@@ -1472,9 +1461,7 @@ void WSS_work(void *args) {
         case CONNECTING:
             if (NULL != server->ssl_ctx) {
                 WSS_ssl_handshake(server, session);
-                WSS_session_jobs_dec(session);
-                pthread_mutex_unlock(&session->lock);
-                return;
+                break;
             }
 
             WSS_read(server, session);
@@ -1513,12 +1500,9 @@ void WSS_work(void *args) {
             }
     }
 
-    WSS_session_jobs_dec(session);
-    pthread_mutex_unlock(&session->lock);
-
     if (session->closing) {
-        session->event = NONE;
         WSS_disconnect(server, session);
+        return;
     }
 
     switch (session->event) {
@@ -1533,4 +1517,7 @@ void WSS_work(void *args) {
         case NONE: 
             break;
     }
+
+    pthread_mutex_unlock(&session->lock);
+    WSS_session_jobs_dec(session);
 }
-- 
2.43.0


From 2394fe69dbb72f71e1761022758ad37a706dce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 03/62] fix: do not wait for other sessions while sending a
 message

Two sessions broadcasting to each other deadlocked on their session locks,
a session in the middle of reading a message blocked every sender until its
client sent the rest, error paths leaked the job registered for the receiver
and a partial write made by another session's thread was never continued.
A sender now only enqueues the message; it is written by whichever thread
holds the receiving session.
---
 include/message.h |   3 +-
 include/session.h |  26 ++++++++++++
 include/worker.h  |  11 +++++
 src/message.c     |  91 ++++++++++++++++++-----------------------
 src/session.c     |  47 ++++++++++++++++++++++
 src/worker.c      | 100 +++++++++++++++++++++++++++++++++++++++-------
 6 files changed, 209 insertions(+), 69 deletions(-)

diff --git a/include/message.h b/include/message.h
index 1eada2b..27db95a 100644
--- a/include/message.h
+++ b/include/message.h
@@ -7,6 +7,7 @@
 
 #include "subprotocol.h"
 #include "extension.h"
+#include "error.h"
 
 /**
  * Structure containing a message that should be sent to a client
@@ -17,7 +18,7 @@ typedef struct {
     bool framed;
 } wss_message_t;
 
-void WSS_message_send_frames(void *server, void *session, wss_frame_t **frames, size_t frames_count);
+wss_error_t WSS_message_send_frames(void *server, void *session, wss_frame_t **frames, size_t frames_count);
 
 void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t message_length);
 
diff --git a/include/session.h b/include/session.h
index 05ee2ac..8fe2d4d 100644
--- a/include/session.h
+++ b/include/session.h
@@ -59,6 +59,13 @@ typedef struct {
     pthread_mutex_t lock_disconnecting;
     // Lock that ensures only one thread can perform IO at a time
     pthread_mutex_t lock;
+    // Whether a job is currently being performed by the thread holding the lock
+    bool working;
+    // Whether messages have been put into the ringbuffer since it was last written
+    bool pending;
+    // Lock that ensures that messages are put into the ringbuffer in the order
+    // they were processed by the extensions
+    pthread_mutex_t lock_send;
     // Attributes for the lock
     pthread_mutexattr_t lock_attr;
     // Jobs to be performed
@@ -204,4 +211,23 @@ wss_error_t WSS_session_jobs_wait(wss_session_t *session);
  */
 wss_error_t WSS_session_is_disconnecting(wss_session_t *session, bool *dc);
 
+/**
+ * Function that atomically sets whether the session has messages in its
+ * ringbuffer, that are yet to be written.
+ *
+ * @param   session   [wss_session_t *]  "The session"
+ * @param   pending   [bool]             "Whether messages are pending"
+ * @return  [void]
+ */
+void WSS_session_set_pending(wss_session_t *session, bool pending);
+
+/**
+ * Function that determines atomically whether the session has messages in its
+ * ringbuffer, that are yet to be written.
+ *
+ * @param   session   [wss_session_t *]  "The session"
+ * @return  [bool]  "Whether messages are pending"
+ */
+bool WSS_session_is_pending(wss_session_t *session);
+
 #endif
diff --git a/include/worker.h b/include/worker.h
index 8443cfd..b2516ec 100644
--- a/include/worker.h
+++ b/include/worker.h
@@ -110,6 +110,17 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session);
  */
 void WSS_write(wss_server_t *server, wss_session_t *session);
 
+/**
+ * Function that writes the messages pending for a session. If some other thread
+ * is using the session, that thread writes them before it is done. Hence the
+ * function never waits for another session.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @return          [void]
+ */
+void WSS_flush(wss_server_t *server, wss_session_t *session);
+
 /**
  * Function that performs and distributes the IO work.
  *
diff --git a/src/message.c b/src/message.c
index 4fcf76b..d2cf98d 100644
--- a/src/message.c
+++ b/src/message.c
@@ -10,19 +10,34 @@
 #include "error.h"
 #include "predict.h"
 
-#include <time.h>
-
-void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_t frames_count) {
+wss_error_t WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_t frames_count) {
     size_t j, k;
     ssize_t off;
     char *out;
     uint64_t out_length;
     wss_message_t *m;
     ringbuf_worker_t *w = NULL;
-    struct timespec tim;
+    wss_error_t err = WSS_SUCCESS;
     wss_server_t *server = (wss_server_t *)serv;
     wss_session_t *session = (wss_session_t *)sess;
 
+    // The messages must be written in the same order as the extensions saw them
+    if ( unlikely(0 != pthread_mutex_lock(&session->lock_send)) ) {
+        WSS_log_error("Unable to lock session send lock");
+
+        return WSS_SESSION_LOCK_ERROR;
+    }
+
+    WSS_log_trace("Acquiring space in ringbuffer");
+
+    if ( unlikely(-1 == (off = ringbuf_acquire(session->ringbuf, &w, 1))) ) {
+        WSS_log_error("Failed to acquire space in ringbuffer");
+
+        pthread_mutex_unlock(&session->lock_send);
+
+        return WSS_RINGBUFFER_ERROR;
+    }
+
     // Use extensions
     if ( NULL != session->header->ws_extensions ) {
         for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
@@ -37,66 +52,34 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
         }
     }
 
-    if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
-        WSS_log_error("Unable to convert frames to message");
-
-        return;
-    }
-
     if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
         WSS_log_error("Unable to allocate message structure");
 
-        WSS_free((void **) &out);
+        err = WSS_MEMORY_ERROR;
+    } else if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
+        WSS_log_error("Unable to convert frames to message");
+
+        WSS_free((void **) &m);
 
-        return;
+        err = WSS_MEMORY_ERROR;
+    } else {
+        m->msg = out;
+        m->length = out_length;
+        m->framed = true;
     }
-    m->msg = out;
-    m->length = out_length;
-    m->framed = true;
 
     WSS_log_trace("Putting message into ringbuffer");
 
-    if ( unlikely(-1 == (off = ringbuf_acquire(session->ringbuf, &w, 1))) ) {
-        WSS_log_error("Failed to acquire space in ringbuffer");
+    // Without a message the space is skipped when writing
+    session->messages[off] = m;
+    ringbuf_produce(session->ringbuf, &w);
 
-        WSS_message_free(m);
+    pthread_mutex_unlock(&session->lock_send);
 
-        return;
-    }
+    WSS_session_set_pending(session, true);
+    WSS_flush(server, session);
 
-    session->messages[off] = m;
-    ringbuf_produce(session->ringbuf, &w);
-    tim.tv_sec = 0;
-    tim.tv_nsec = 100000000;
-
-    do {
-        pthread_mutex_lock(&session->lock);
-
-        switch (session->state) {
-        case READING:
-            pthread_mutex_unlock(&session->lock);
-            nanosleep(&tim, NULL);
-            break;
-        case CLOSING:
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        case CONNECTING:
-            pthread_mutex_unlock(&session->lock);
-            nanosleep(&tim, NULL);
-            break;
-        case WRITING:
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        case IDLE:
-            session->state = WRITING;
-            WSS_write(server, session);
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        }
-    } while (1);
+    return err;
 }
 
 void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t message_length) {
@@ -125,6 +108,8 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
         WSS_free_frame(frames[k]);
     }
     WSS_free((void **) &frames);
+
+    WSS_session_jobs_dec(session);
 }
 
 void WSS_message_free(wss_message_t *msg) {
diff --git a/src/session.c b/src/session.c
index 808602e..1ce6a69 100644
--- a/src/session.c
+++ b/src/session.c
@@ -123,6 +123,17 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
         return NULL;
     }
 
+    if ( unlikely((err = pthread_mutex_init(&session->lock_send, NULL)) != 0) ) {
+        WSS_log_error("Unable to initialize session send lock: %s", strerror(err));
+        pthread_mutex_destroy(&session->lock);
+        pthread_mutex_destroy(&session->lock_jobs);
+        pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_mutexattr_destroy(&session->lock_attr);
+        WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
+    }
+
     session->fd = fd;
     session->port = port;
     session->header = NULL;
@@ -132,6 +143,7 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
         WSS_log_error("Unable to allocate memory for IP");
         pthread_mutex_destroy(&session->lock);
         pthread_mutex_destroy(&session->lock_jobs);
+        pthread_mutex_destroy(&session->lock_send);
         pthread_mutex_destroy(&session->lock_disconnecting);
         pthread_mutexattr_destroy(&session->lock_attr);
         WSS_free((void **) &session);
@@ -169,6 +181,10 @@ static wss_error_t session_delete(wss_session_t *session) {
             err = WSS_SESSION_LOCK_DESTROY_ERROR;
         }
 
+        if ( unlikely((err = pthread_mutex_destroy(&session->lock_send)) != 0) ) {
+            err = WSS_SESSION_LOCK_DESTROY_ERROR;
+        }
+
         WSS_log_trace("Free ip string");
         WSS_free((void **) &session->ip);
 
@@ -406,6 +422,37 @@ wss_error_t WSS_session_is_disconnecting(wss_session_t *session, bool *dc) {
     return err;
 }
 
+/**
+ * Function that atomically sets whether the session has messages in its
+ * ringbuffer, that are yet to be written.
+ *
+ * @param   session   [wss_session_t *]  "The session"
+ * @param   pending   [bool]             "Whether messages are pending"
+ * @return  [void]
+ */
+void WSS_session_set_pending(wss_session_t *session, bool pending) {
+    pthread_mutex_lock(&session->lock_jobs);
+    session->pending = pending;
+    pthread_mutex_unlock(&session->lock_jobs);
+}
+
+/**
+ * Function that determines atomically whether the session has messages in its
+ * ringbuffer, that are yet to be written.
+ *
+ * @param   session   [wss_session_t *]  "The session"
+ * @return  [bool]  "Whether messages are pending"
+ */
+bool WSS_session_is_pending(wss_session_t *session) {
+    bool pending;
+
+    pthread_mutex_lock(&session->lock_jobs);
+    pending = session->pending;
+    pthread_mutex_unlock(&session->lock_jobs);
+
+    return pending;
+}
+
 /**
  * Function that finds all sessions and calls callback for each of them.
  *
diff --git a/src/worker.c b/src/worker.c
index f4cc5f6..86c1c78 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1282,13 +1282,21 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             } else {
                 WSS_log_trace("Writing control frame message");
 
-                WSS_session_jobs_inc(session);
-                WSS_message_send_frames((void *)server, (void *)session, &frames[starting_frame], len);
+                // If the closing frame cannot be delivered, close without it
+                if ( unlikely(WSS_SUCCESS != WSS_message_send_frames((void *)server, (void *)session, &frames[starting_frame], len) &&
+                            frames[starting_frame]->opcode == CLOSE_FRAME) ) {
+                    session->closing = true;
+                }
             }
 
             WSS_free((void **) &msg);
             msg_length = 0;
             msg_offset = 0;
+
+            // Nothing can be sent anymore
+            if ( unlikely(session->closing) ) {
+                break;
+            }
         }
     }
 
@@ -1334,6 +1342,12 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
             bytes_sent = session->written;
             session->written = 0;
             message = session->messages[off+i];
+
+            // The message could not be created
+            if ( unlikely(NULL == message) ) {
+                continue;
+            }
+
             message_length = message->length;
 
             while ( likely(bytes_sent < message_length) ) {
@@ -1388,7 +1402,8 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
 
     WSS_log_trace("Done writing to filedescriptors");
 
-    session->state = IDLE;
+    // If a message was only partly read, we are still in the middle of reading it
+    session->state = (NULL != session->payload || NULL != session->frames) ? READING : IDLE;
 
     if (closing) {
         WSS_log_trace("Closing connection, since closing frame has been sent");
@@ -1399,6 +1414,66 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
     }
 }
 
+/**
+ * Function that rearms the session for the event it is waiting for.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @return          [void]
+ */
+static void rearm(wss_server_t *server, wss_session_t *session) {
+    switch (session->event) {
+        case WRITE: 
+            clock_gettime(CLOCK_MONOTONIC, &session->alive);
+            WSS_poll_set_write(server, session->fd);
+            break;
+        case READ: 
+            clock_gettime(CLOCK_MONOTONIC, &session->alive);
+            WSS_poll_set_read(server, session->fd);
+            break;
+        case NONE: 
+            break;
+    }
+}
+
+/**
+ * Function that writes the messages pending for a session. If some other thread
+ * is using the session, that thread writes them before it is done. Hence the
+ * function never waits for another session.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @return          [void]
+ */
+void WSS_flush(wss_server_t *server, wss_session_t *session) {
+    while ( WSS_session_is_pending(session) && pthread_mutex_trylock(&session->lock) == 0 ) {
+        WSS_session_set_pending(session, false);
+
+        // In any other state, the messages are written when that state is left
+        if ( likely(! session->closing && (session->state == IDLE || session->state == READING)) ) {
+            // If the lock is held by this thread because it performs a job for
+            // the session, the file descriptor is rearmed when the job is done
+            if ( ! session->working ) {
+                session->event = NONE;
+            }
+
+            session->state = WRITING;
+            WSS_write(server, session);
+
+            if ( ! session->working ) {
+                // A closing session is disconnected by a job of its own
+                if ( unlikely(session->closing) ) {
+                    session->event = WRITE;
+                }
+
+                rearm(server, session);
+            }
+        }
+
+        pthread_mutex_unlock(&session->lock);
+    }
+}
+
 /**
  * Function that performs and distributes the IO work.
  *
@@ -1432,6 +1507,8 @@ void WSS_work(void *args) {
 
     session->event = NONE;
 
+    session->working = true;
+
     // Another job has already decided to close the session
     if ( unlikely(session->closing) ) {
         WSS_disconnect(server, session);
@@ -1505,19 +1582,12 @@ void WSS_work(void *args) {
         return;
     }
 
-    switch (session->event) {
-        case WRITE: 
-            clock_gettime(CLOCK_MONOTONIC, &session->alive);
-            WSS_poll_set_write(server, session->fd);
-            break;
-        case READ: 
-            clock_gettime(CLOCK_MONOTONIC, &session->alive);
-            WSS_poll_set_read(server, session->fd);
-            break;
-        case NONE: 
-            break;
-    }
+    rearm(server, session);
 
+    session->working = false;
     pthread_mutex_unlock(&session->lock);
+
+    // Messages may have been sent to the session by other threads meanwhile
+    WSS_flush(server, session);
     WSS_session_jobs_dec(session);
 }
-- 
2.43.0


From 08822677d6efb42a4a3885466f89db1ab53be6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 04/62] fix: do not overflow the client address when accepting
 several connections

The server socket is an IPv6 socket, but the address was stored in a
sockaddr_in and the size returned by one accept was passed on to the next,
which then wrote beyond the structure.
---
 src/worker.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 86c1c78..a2e2e6b 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -445,17 +445,18 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
  */
 void WSS_connect(wss_server_t *server) {
     int client_fd;
-    struct sockaddr_in client;
+    struct sockaddr_in6 client;
+    char ip[INET6_ADDRSTRLEN];
     size_t ringbuf_obj_size;
     socklen_t client_size;
     wss_session_t *session;
     ringbuf_t *ringbuf;
     size_t workers = server->config->pool_workers+1;
 
-    client_size	= sizeof(client);
-    memset((char *) &client, '\0', sizeof(client));
-
     while (1) {
+        client_size	= sizeof(client);
+        memset((char *) &client, '\0', sizeof(client));
+
         if ( (client_fd = accept(server->fd, (struct sockaddr *) &client,
                         &client_size)) < 0 ) {
             if ( likely(EAGAIN == errno || EWOULDBLOCK == errno) ) {
@@ -472,8 +473,12 @@ void WSS_connect(wss_server_t *server) {
 
         WSS_log_trace("Client filedescriptor was set to non-blocking");
 
+        if ( unlikely(NULL == inet_ntop(AF_INET6, (const void *)&client.sin6_addr, ip, sizeof(ip))) ) {
+            ip[0] = '\0';
+        }
+
         if ( unlikely(NULL == (session = WSS_session_add(client_fd,
-                        inet_ntoa(client.sin_addr), ntohs(client.sin_port)))) ) {
+                        ip, ntohs(client.sin6_port)))) ) {
             continue;
         }
 
-- 
2.43.0


From 3f7ebc1041fe8f0fb1efbefb0cebeab20e244b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 05/62] fix: join each server thread once and into a pointer
 sized result

The HTTP thread was joined twice, which is undefined, and the results were
written through pointers to int.
---
 src/server.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/server.c b/src/server.c
index 0cdca9d..aab25f6 100644
--- a/src/server.c
+++ b/src/server.c
@@ -254,7 +254,7 @@ void *WSS_cleanup() {
 #ifdef USE_RPMALLOC
                 rpmalloc_thread_finalize();
 #endif
-                pthread_exit( ((void *) &err) );
+                pthread_exit( ((void *) ((uintptr_t)err)) );
             }
         }
     }
@@ -383,6 +383,7 @@ static int WSS_server_free(wss_server_t *server) {
  */
 int WSS_server_start(wss_config_t *config) {
     int err;
+    void *res;
     struct rlimit limits;
     struct sigaction sa;
     int ret = EXIT_SUCCESS;
@@ -611,7 +612,8 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_log_trace("Joining server threads");
 
-    pthread_join(cleanup_thread_id, (void **) &err);
+    pthread_join(cleanup_thread_id, &res);
+    err = (int)(uintptr_t)res;
     if ( unlikely(WSS_SUCCESS != err) ) {
         WSS_log_error("Cleanup thread returned with error: %s", strerror(err));
         WSS_server_set_state(HALT_ERROR);
@@ -619,7 +621,8 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_log_trace("Cleanup thread has shutdown");
 
-    pthread_join(http->thread_id, (void **) &err);
+    pthread_join(http->thread_id, &res);
+    err = (int)(uintptr_t)res;
     if ( unlikely(WSS_SUCCESS != err) ) {
         WSS_log_error("HTTP Server thread returned with error: %s", strerror(err));
         WSS_server_set_state(HALT_ERROR);
@@ -628,7 +631,8 @@ int WSS_server_start(wss_config_t *config) {
     WSS_log_trace("HTTP server thread has shutdown");
 
     if (ssl) {
-        pthread_join(https->thread_id, (void **) &err);
+        pthread_join(https->thread_id, &res);
+        err = (int)(uintptr_t)res;
         if ( unlikely(WSS_SUCCESS != err) ) {
             WSS_log_error("HTTPS Server thread returned with error: %s", strerror(err));
             WSS_server_set_state(HALT_ERROR);
@@ -637,8 +641,6 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("HTTPS server thread has shutdown");
     }
 
-    pthread_join(http->thread_id, (void **) &err);
-
     if ( unlikely(WSS_poll_close(http) != WSS_SUCCESS) ) {
         WSS_server_set_state(HALT_ERROR);
     }
-- 
2.43.0


From 6efeaafaa0fcae3231323a194ba04e63a47e4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 06/62] fix: handle empty header values and free everything
 when parsing a request fails

---
 src/header.c | 91 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 62 insertions(+), 29 deletions(-)

diff --git a/src/header.c b/src/header.c
index b739fd3..ff7c423 100644
--- a/src/header.c
+++ b/src/header.c
@@ -69,8 +69,21 @@ static inline char *trim(char* str)
     return str;
 }
 
+/**
+ * Gets the value of a header line i.e. what is left of the line after the name,
+ * without the optional whitespace surrounding it.
+ *
+ * @param   lineptr [char **]   "Pointer to what is left of the line"
+ * @return          [char *]    "The value, which is empty if the line has none"
+ */
+static inline char *header_value(char **lineptr) {
+    char *value = strtok_r(NULL, "", lineptr);
+
+    return NULL == value ? "" : trim(value);
+}
+
 static inline void header_set_version(wss_header_t *header, char *v) {
-    int version = strtol(strtok_r(NULL, "", &v), (char **) NULL, 10);
+    int version = strtol(v, (char **) NULL, 10);
 
     if ( likely(header->ws_version < version) ) {
         if ( unlikely(version == 4) ) {
@@ -106,13 +119,14 @@ static inline void header_set_version(wss_header_t *header, char *v) {
  * @return            [enum HttpStatus_Code]   "The status code to return to the client"
  */
 enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t *config) {
-    bool valid, in_use, double_clrf = false;
+    bool valid = false, in_use, double_clrf = false;
     size_t i, line_length;
     char *lineptr, *temp, *line, *sep, *accepted;
     char *tokenptr = NULL, *sepptr = NULL, *paramptr = NULL;
     char *token, *name; 
     wss_subprotocol_t *proto;
     wss_extension_t *ext;
+    wss_ext_t **extensions;
     char *exts = NULL;
     unsigned int header_size = 0;
     size_t extensions_length = 0;
@@ -214,6 +228,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
         if ( unlikely(header_size > config->size_header) ) {
             WSS_log_trace("Header size received is too large.");
+            WSS_free((void **) &exts);
             return HttpStatus_RequestHeaderFieldsTooLarge;
         }
 
@@ -226,10 +241,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 // The |Sec-WebSocket-Version| header field MUST NOT appear more than once in an HTTP request.
                 if ( unlikely(header->ws_version != 0) ) {
                     WSS_log_trace("Sec-WebSocket-Version must only appear once in header");
+                    WSS_free((void **) &exts);
                     return HttpStatus_BadRequest;
                 }
 
-                sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                sep = trim(strtok_r(header_value(&lineptr), ",", &sepptr));
                 while (NULL != sep) {
                     header_set_version(header, sep);
 
@@ -237,20 +253,20 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
             } else if ( line_length == strlen(UPGRADE_STRING) &&
                         strncasecmp(UPGRADE_STRING, line, line_length) == 0 ) {
-                header->ws_upgrade = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_upgrade = header_value(&lineptr);
             } else if ( line_length == strlen(ORIGIN_STRING) &&
                         strncasecmp(ORIGIN_STRING, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = header_value(&lineptr);
             } else if ( line_length == strlen(CONNECTION_STRING) &&
                         strncasecmp(CONNECTION_STRING, line, line_length) == 0 ) {
-                header->ws_connection = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_connection = header_value(&lineptr);
             } else if ( line_length == strlen(COOKIE_STRING) &&
                         strncasecmp(COOKIE_STRING, line, line_length) == 0 ) {
-                header->cookies = (strtok_r(NULL, "", &lineptr)+1);
+                header->cookies = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_PROTOCOL) &&
                         strncasecmp(SEC_WEBSOCKET_PROTOCOL, line, line_length) == 0 ) {
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                    sep = trim(strtok_r(header_value(&lineptr), ",", &sepptr));
                     if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
                         header->ws_protocol = proto;
                     } else {
@@ -264,18 +280,19 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
             } else if ( line_length == strlen(SEC_WEBSOCKET_ORIGIN) &&
                         strncasecmp(SEC_WEBSOCKET_ORIGIN, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY) &&
                         strncasecmp(SEC_WEBSOCKET_KEY, line, line_length) == 0 ) {
                 //The |Sec-WebSocket-Key| header field MUST NOT appear more than once in an HTTP request.
                 if ( unlikely(header->ws_key != NULL) ) {
                     WSS_log_trace("Sec-WebSocket-Key must only appear once in header");
+                    WSS_free((void **) &exts);
                     return HttpStatus_BadRequest;
                 }
-                header->ws_key = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_EXTENSIONS) &&
                         strncasecmp(SEC_WEBSOCKET_EXTENSIONS, line, line_length) == 0 ) {
-                line = trim(strtok_r(NULL, "", &lineptr));
+                line = header_value(&lineptr);
                 line_length = strlen(line);
                 if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+1)*sizeof(char))) ) {
                     WSS_log_error("Unable to allocate space for extensions string");
@@ -286,12 +303,12 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 extensions_length += line_length;
             } else if ( line_length == strlen(HOST_STRING) &&
                         strncasecmp(HOST_STRING, line, line_length) == 0 ) {
-                header->host = (strtok_r(NULL, "", &lineptr)+1);
+                header->host = header_value(&lineptr);
             } else if ( line_length == strlen(WEBSOCKET_PROTOCOL_STRING) &&
                         strncasecmp(WEBSOCKET_PROTOCOL_STRING, line, line_length) == 0 ) {
                 header->ws_type = HIXIE75;
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                    sep = trim(strtok_r(header_value(&lineptr), ",", &sepptr));
                     if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
                         header->ws_protocol = proto;
                     } else {
@@ -306,11 +323,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY1) &&
                         strncasecmp(SEC_WEBSOCKET_KEY1, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key1 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key1 = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY2) &&
                         strncasecmp(SEC_WEBSOCKET_KEY2, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key2 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key2 = header_value(&lineptr);
             }
         }
 
@@ -320,6 +337,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
             if ( unlikely(strlen(tokenptr) > config->size_payload) ) {
                 WSS_log_trace("Payload size received is too large.");
+                WSS_free((void **) &exts);
                 return HttpStatus_PayloadTooLarge;
             }
 
@@ -333,6 +351,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 tokenptr++;
             } else if ( unlikely(tokenptr[0] != '\0') ) {
                 WSS_log_trace("Line shall always end with newline character");
+                WSS_free((void **) &exts);
                 return HttpStatus_BadRequest;
             }
         }
@@ -347,6 +366,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
     if ( !double_clrf ) {
         WSS_log_trace("Double CLRF required to distinguish between header and body");
+        WSS_free((void **) &exts);
         return HttpStatus_BadRequest;
     }
 
@@ -354,14 +374,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
         sep = trim(strtok_r(exts, ",", &sepptr));
         while(NULL != sep) {
             in_use = false;
+            accepted = NULL;
+            name = NULL;
             sep = trim(strtok_r(sep, ";", &paramptr));
 
-            if ( NULL == (name = WSS_copy(sep, strlen(sep)+1)) ) {
-                WSS_log_error("Unable to allocate space for extension structure");
-                return HttpStatus_InternalServerError;
-            }
-
-            if (NULL != (ext = WSS_find_extension(name))) {
+            if (NULL != sep && NULL != (ext = WSS_find_extension(sep))) {
                 for (i = 0; i < header->ws_extensions_count; i++) {
                     if ( unlikely(header->ws_extensions[i]->ext == ext) ) {
                         in_use = true; 
@@ -370,21 +387,37 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
 
                 if ( likely(! in_use) ) {
+                    if ( unlikely(NULL == (name = WSS_copy(sep, strlen(sep)+1))) ) {
+                        WSS_log_error("Unable to allocate space for extension structure");
+                        WSS_free((void **) &exts);
+                        return HttpStatus_InternalServerError;
+                    }
+
+                    if ( unlikely(NULL == (extensions = WSS_malloc((header->ws_extensions_count+1)*sizeof(wss_ext_t *)))
+                                || NULL == (extensions[header->ws_extensions_count] = WSS_malloc(sizeof(wss_ext_t)))) ) {
+                        WSS_log_error("Unable to allocate space for extension");
+                        WSS_free((void **) &extensions);
+                        WSS_free((void **) &name);
+                        WSS_free((void **) &exts);
+                        return HttpStatus_InternalServerError;
+                    }
+
                     ext->open(fd, trim(paramptr), &accepted, &valid); 
                     if ( likely(valid) ) {
-                        if ( unlikely(NULL == (header->ws_extensions = WSS_realloc((void **) &header->ws_extensions, header->ws_extensions_count*sizeof(wss_ext_t *), (header->ws_extensions_count+1)*sizeof(wss_ext_t *)))) ) {
-                            WSS_log_error("Unable to allocate space for extension");
-                            return HttpStatus_InternalServerError;
-                        }
-
-                        if ( unlikely(NULL == (header->ws_extensions[header->ws_extensions_count] = WSS_malloc(sizeof(wss_ext_t))))) {
-                            WSS_log_error("Unable to allocate space for extension structure");
-                            return HttpStatus_InternalServerError;
+                        for (i = 0; i < header->ws_extensions_count; i++) {
+                            extensions[i] = header->ws_extensions[i];
                         }
+                        WSS_free((void **) &header->ws_extensions);
+                        header->ws_extensions = extensions;
                         header->ws_extensions[header->ws_extensions_count]->ext = ext;
                         header->ws_extensions[header->ws_extensions_count]->name = name;
                         header->ws_extensions[header->ws_extensions_count]->accepted = accepted;
                         header->ws_extensions_count += 1;
+                    } else {
+                        WSS_free((void **) &extensions[header->ws_extensions_count]);
+                        WSS_free((void **) &extensions);
+                        WSS_free((void **) &accepted);
+                        WSS_free((void **) &name);
                     }
                 }
             }
-- 
2.43.0


From 8bd350eba53181b7baea39d5a0ddab399ff4ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 07/62] fix: send HTTP responses that are as long as they say
 and serve the favicon

---
 src/worker.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index a2e2e6b..83325f5 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -162,7 +162,7 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
     WSS_log_debug("Handshake Response: \n%s", message);
 
     msg->msg = message;
-    msg->length = length;
+    msg->length = strlen(message);
 
     return msg;
 }
@@ -186,6 +186,7 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     size_t length;
     struct stat filestat;
     char sha1Key[SHA_DIGEST_LENGTH];
+    char *hash = sha1Key;
     char date[GMT_FORMAT_LENGTH];
     char modified[GMT_FORMAT_LENGTH];
     char savedlocale[256];
@@ -193,6 +194,8 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     const char *reason  = HttpStatus_reasonPhrase(code);
     int icon = 0, line = 0, headers = 0;
 
+    savedlocale[255] = '\0';
+
     // Get GMT current time
     strncpy(savedlocale, setlocale(LC_ALL, NULL), 255);
     setlocale(LC_ALL, "C");
@@ -226,8 +229,13 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
         return NULL;
     }
 
+    if ( unlikely(icon == 0) ) {
+        WSS_free((void **) &ico);
+        return NULL;
+    }
+
     // Generate etag from favicon content
-    WSS_sha1(ico, icon, (char **)&sha1Key);
+    WSS_sha1(ico, icon, &hash);
 
     // Convert etag binary values to hex values
     if ( unlikely(NULL == (etag = bin2hex((const unsigned char *)sha1Key, SHA_DIGEST_LENGTH))) ) {
@@ -253,9 +261,12 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     sprintf(message+line, HTTP_ICO_HEADERS, icon, date, WSS_SERVER_VERSION, etag, modified);
     memcpy(message+(line+headers), ico, icon);
 
-    msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t));
-    msg->msg = message;
-    msg->length = length;
+    if ( likely(NULL != (msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t)))) ) {
+        msg->msg = message;
+        msg->length = length - 1;
+    } else {
+        WSS_free((void **) &message);
+    }
 
     WSS_free((void **) &etag);
     WSS_free((void **) &ico);
@@ -309,7 +320,7 @@ static wss_message_t *upgrade_response(wss_header_t *header, enum HttpStatus_Cod
         return NULL;
     }
     msg->msg = message;
-    msg->length = length;
+    msg->length = length - 1;
 
     return msg;
 }
@@ -361,7 +372,7 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     body += strlen(exp)*sizeof(char);
 
     if (code == HttpStatus_NotImplemented) {
-        support = strlen(HTTP_WS_VERSION_HEADER)*sizeof(char)-6*sizeof(char);
+        support = snprintf(NULL, 0, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07);
     }
     headers += strlen(HTTP_HTML_HEADERS)*sizeof(char)-6*sizeof(char);
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
@@ -375,7 +386,7 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
 
     sprintf(message, HTTP_STATUS_LINE, version, code, reason);
     if (code == HttpStatus_NotImplemented) {
-        sprintf(message+support, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
+        sprintf(message+line, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
     }
     sprintf(message+support+line, HTTP_HTML_HEADERS, body, date, WSS_SERVER_VERSION);
     sprintf(message+support+line+headers, HTTP_BODY, code, reason, reason, exp);
@@ -385,7 +396,7 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
         return NULL;
     }
     msg->msg = message;
-    msg->length = length;
+    msg->length = length - 1;
 
     return msg;
 }
-- 
2.43.0


From 23c7a6499507be8ca4437ae9710928ea86e3b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 08/62] fix: free the loaded content instead of the pointer to
 it when loading a file fails

---
 src/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str.c b/src/str.c
index 5dfa0a2..107bbdc 100644
--- a/src/str.c
+++ b/src/str.c
@@ -114,14 +114,14 @@ size_t strload(char *path, char **str) {
     if ( unlikely(fread(*str, sizeof(char), size, file) != (unsigned long)size) ) {
         WSS_log_error("Didn't read what was expected");
         fclose(file);
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
     n = fclose(file);
     if ( unlikely(n != 0) ) {
         WSS_log_error("Unable to close file: %s", strerror(errno));
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
-- 
2.43.0


From 674f635dd2840ecb5fab26788048d468f3b37243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 09/62] fix: wait for the whole request before answering a
 handshake and reject it consistently

---
 src/session.c |   5 +-
 src/worker.c  | 157 +++++++++++++++++++++++++++++++++-----------------
 2 files changed, 108 insertions(+), 54 deletions(-)

diff --git a/src/session.c b/src/session.c
index 1ce6a69..3968ca2 100644
--- a/src/session.c
+++ b/src/session.c
@@ -206,7 +206,10 @@ static wss_error_t session_delete(wss_session_t *session) {
                 session->header->ws_extensions[j]->ext->close(session->fd);
             }
 
-            session->header->ws_protocol->close(session->fd);
+            // The request might not have been fully handshaked
+            if ( likely(session->handshaked) ) {
+                session->header->ws_protocol->close(session->fd);
+            }
 
             WSS_free_header(session->header);
         }
diff --git a/src/worker.c b/src/worker.c
index 83325f5..d0676ab 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -612,6 +612,55 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
     return n;
 }
 
+/**
+ * Determines whether the empty line that ends the headers of a HTTP request is
+ * among the data received.
+ *
+ * @param 	header  [wss_header_t *] 	"The header structure"
+ * @param 	offset  [unsigned int] 	    "How much of the data that was already checked"
+ * @return          [bool]              "Whether all headers has been received"
+ */
+static bool request_complete(wss_header_t *header, unsigned int offset) {
+    unsigned int i;
+
+    for (i = offset < 3 ? 3 : offset; likely(i < header->length); i++) {
+        if ( unlikely(memcmp(header->content+i-3, "\r\n\r\n", 4) == 0) ) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
+/**
+ * Responds to a HTTP request that does not lead to a websocket connection. The
+ * session is closed if the response cannot be sent.
+ *
+ * @param 	server      [wss_server_t *] 	"A server instance"
+ * @param 	session     [wss_session_t *] 	"The client session"
+ * @param 	header      [wss_header_t *] 	"The header of the request, which will be freed"
+ * @param 	message     [wss_message_t *] 	"The response or NULL"
+ * @return              [void]
+ */
+static void reject(wss_server_t *server, wss_session_t *session, wss_header_t *header, wss_message_t *message) {
+    size_t i;
+
+    // Extensions opened while parsing the request will not be used
+    for (i = 0; i < header->ws_extensions_count; i++) {
+        header->ws_extensions[i]->ext->close(session->fd);
+    }
+
+    WSS_free_header(header);
+
+    if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
+        session->state = WRITING;
+        session->event = READ;
+        WSS_write(server, session);
+    } else {
+        session->closing = true;
+    }
+}
+
 /**
  * Performs a websocket handshake with the client session
  *
@@ -621,13 +670,16 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
  */
 static void handshake(wss_server_t *server, wss_session_t *session) {
     int n;
+    bool complete;
     wss_header_t *header;
     wss_message_t *message;
     enum HttpStatus_Code code;
+    wss_subprotocol_t *protocol = NULL;
     char *buffer;
 
     if ( unlikely(NULL == (buffer = WSS_malloc(server->config->size_buffer)))) {
         WSS_log_fatal("Unable to allocate buffer");
+        session->closing = true;
         return;
     }
 
@@ -639,6 +691,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     } else {
         if ( unlikely(NULL == (header = WSS_malloc(sizeof(wss_header_t)))) ) {
             WSS_log_fatal("Unable to allocate header");
+            WSS_free((void **) &buffer);
+            session->closing = true;
             return;
         }
 
@@ -663,6 +717,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         header->ws_key3             = NULL;
     }
 
+    complete = request_complete(header, 0);
+
     WSS_log_trace("Reading headers");
 
     // Continue reading until we get no bytes back
@@ -672,6 +728,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         switch (n) {
             // Wait for IO for either read or write on the filedescriptor
             case -2:
+                WSS_free((void **) &buffer);
+
                 session->header = header;
 
                 session->event = WRITE;
@@ -681,14 +739,12 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
             case -1:
                 WSS_log_trace("Rejecting HTTP request due to being unable to read from client");
 
+                WSS_free((void **) &buffer);
+
                 message = http_response(header, HttpStatus_InternalServerError, "Unable to read from client");
-                WSS_free_header(header);
+                reject(server, session, header, message);
 
-                if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                    session->state = WRITING;
-                    session->event = READ;
-                    WSS_write(server, session);
-                }
+                session->closing = true;
 
                 return;
             case 0:
@@ -697,10 +753,14 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 // Reallocate space for the header and copy buffer into it
                 if ( unlikely(NULL == (header->content = WSS_realloc((void **) &header->content, header->length*sizeof(char), (header->length+n+1)*sizeof(char)))) ) {
                     WSS_log_fatal("Unable to realloc header content");
+                    WSS_free((void **) &buffer);
+                    WSS_free_header(header);
+                    session->closing = true;
                     return;
                 }
                 memcpy(header->content+header->length, buffer, n);
                 header->length += n;
+                complete = complete || request_complete(header, header->length-n);
                 memset(buffer, '\0', server->config->size_buffer);
 
                 // Check if payload from client is too large for the server to handle.
@@ -708,15 +768,11 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 if ( unlikely(header->length > (server->config->size_header+server->config->size_uri+server->config->size_payload)) ) {
                     WSS_log_trace("Rejecting HTTP request as client payload is too large for the server to handle");
 
+                    WSS_free((void **) &buffer);
+
                     message = http_response(header, HttpStatus_PayloadTooLarge,
                             "The given payload is too large for the server to handle");
-                    WSS_free_header(header);
-
-                    if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                        session->state = WRITING;
-                        session->event = READ;
-                        WSS_write(server, session);
-                    }
+                    reject(server, session, header, message);
 
                     return;
                 }
@@ -726,6 +782,16 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     WSS_free((void **)&buffer);
 
+    // Wait for more if the empty line ending the headers has not been received
+    if ( ! complete ) {
+        WSS_log_trace("Detected that data was missing in order to complete the request, will wait for more");
+
+        session->header = header;
+        session->event = READ;
+
+        return;
+    }
+
     WSS_log_debug("Client header: \n%s", header->content);
 
     WSS_log_trace("Starting parsing header received from client");
@@ -736,13 +802,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         WSS_log_trace("Rejecting HTTP request due to header not being correct");
 
         message = http_response(header, code, (char *)HttpStatus_reasonPhrase(code));
-        WSS_free_header(header);
-
-        if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-            session->state = WRITING;
-            session->event = READ;
-            WSS_write(server, session);
-        }
+        reject(server, session, header, message);
 
         return;
     }
@@ -751,30 +811,15 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     if (strlen(header->path) == 12 && strncmp(header->path, "/favicon.ico", 12) == 0) {
         message = favicon_response(header, code, server->config);
         if (NULL != message) {
-            WSS_free_header(header);
-
             WSS_log_trace("Serving a favicon to the client");
-
-            // Find and serve favicon.
-            if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-                session->state = WRITING;
-                session->event = READ;
-                WSS_write(server, session);
-            }
         } else {
             WSS_log_trace("Rejecting HTTP request due to favicon not being available");
 
             // Else notify client that favicon could not be found
             code = HttpStatus_NotFound;
             message = http_response(header, code, (char *)HttpStatus_reasonPhrase(code));
-            WSS_free_header(header);
-
-            if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                session->state = WRITING;
-                session->event = READ;
-                WSS_write(server, session);
-            }
         }
+        reject(server, session, header, message);
 
         return;
     }
@@ -783,6 +828,14 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     // Create Upgrade HTTP header based on clients header
     code = WSS_upgrade_header(header, server->config, server->re);
+
+    // Use echo protocol if none was chosen
+    if (code == HttpStatus_SwitchingProtocols && NULL == header->ws_protocol &&
+            NULL == (protocol = WSS_find_subprotocol("echo"))) {
+        WSS_log_trace("No subprotocol is available for the client");
+        code = HttpStatus_BadRequest;
+    }
+
     switch (code) {
         case HttpStatus_UpgradeRequired:
             WSS_log_trace("Rejecting HTTP request as the service requires use of the Websocket protocol.");
@@ -818,34 +871,32 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     if (code != HttpStatus_SwitchingProtocols) {
         WSS_log_trace("Unable to establish websocket connection");
 
-        if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-            session->state = WRITING;
-            session->event = READ;
-            WSS_write(server, session);
-        }
+        reject(server, session, header, message);
 
-        WSS_free_header(header);
+        return;
+    }
+
+    // The client must not be left waiting for a response that cannot be sent
+    if ( unlikely(NULL == message || WSS_SUCCESS != write_internal(session, message)) ) {
+        reject(server, session, header, NULL);
 
         return;
     }
 
-    // Use echo protocol if none was chosen
     if (NULL == header->ws_protocol) {
-        header->ws_protocol = WSS_find_subprotocol("echo");
+        header->ws_protocol = protocol;
     }
 
-    // Notify websocket protocol of the connection
-    header->ws_protocol->connect(session->fd, session->ip, session->port, header->path, header->cookies);
-
     // Set session as fully handshaked
-    session->handshaked = true;
     session->header = header;
+    session->handshaked = true;
 
-    if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-        session->state = WRITING;
-        session->event = READ;
-        WSS_write(server, session);
-    }
+    // Notify websocket protocol of the connection
+    header->ws_protocol->connect(session->fd, session->ip, session->port, header->path, header->cookies);
+
+    session->state = WRITING;
+    session->event = READ;
+    WSS_write(server, session);
 }
 
 /**
-- 
2.43.0


From 2fd285fb86c4380666df6bedebdd654881286eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 10/62] fix: do not let the payload length of a frame overflow
 the offset

---
 src/frame.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index 534dbb1..4e64238 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -44,6 +44,11 @@
  */
 static char *random_bytes(int length) {
     char *res = WSS_malloc(length);
+
+    if ( unlikely(NULL == res) ) {
+        return NULL;
+    }
+
     /* Seed number for rand() */
     srand((unsigned int) time(0) + getpid());
 
@@ -317,15 +322,22 @@ wss_frame_t *WSS_parse_frame(char *payload, size_t length, size_t *offset) {
 
     frame->applicationDataLength = frame->payloadLength-frame->extensionDataLength;
     if ( likely(frame->applicationDataLength > 0) ) {
-        if ( likely(*offset+frame->applicationDataLength <= length) ) {
+        if ( likely(*offset <= length && frame->applicationDataLength <= length-*offset) ) {
             if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength))) ) {
                 WSS_log_error("Unable to allocate frame application data");
+                WSS_free_frame(frame);
                 return NULL;
             }
 
             memcpy(frame->payload, payload+*offset, frame->applicationDataLength);
         }
-        *offset += frame->applicationDataLength;
+
+        // The length is chosen by the client, hence the sum must not overflow
+        if ( unlikely(frame->applicationDataLength > SIZE_MAX-*offset) ) {
+            *offset = SIZE_MAX;
+        } else {
+            *offset += frame->applicationDataLength;
+        }
     }
 
     if ( likely(frame->mask && *offset <= length) ) {
-- 
2.43.0


From 00d6880af854f66833b0e3e0f85236fc70cd24b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 11/62] fix: send the fragments of a message as continuation
 frames

---
 src/frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame.c b/src/frame.c
index 4e64238..59e57e9 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -546,7 +546,7 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         }
 
         frame->fin = 0;
-        frame->opcode = opcode;
+        frame->opcode = (i == 0) ? opcode : CONTINUATION_FRAME;
         frame->mask = 0;
 
         frame->applicationDataLength = MIN(message_length-(config->size_frame*i), config->size_frame);
-- 
2.43.0


From a5dc30055fbf05ee2259443e670c041bb7051292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 12/62] fix: handle spurious events and failures while reading,
 and count the frames of a message

A job without any data to read closed the connection, frames of the client that
were handled in the same read counted as if they belonged to one message, and
memory was lost or a missing frame used when something failed.
---
 src/worker.c | 118 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 95 insertions(+), 23 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index d0676ab..3a4e3d8 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -899,6 +899,53 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     WSS_write(server, session);
 }
 
+/**
+ * Appends a frame to an array of frames.
+ *
+ * @param 	frames      [wss_frame_t ***] 	"The array of frames"
+ * @param 	length      [size_t *] 	        "The amount of frames in the array"
+ * @param 	frame       [wss_frame_t *] 	"The frame to append"
+ * @return              [bool]              "Whether the frame was appended, otherwise the array is unchanged"
+ */
+static bool append_frame(wss_frame_t ***frames, size_t *length, wss_frame_t *frame) {
+    wss_frame_t **buffer;
+
+    // The array is only full when its length is a power of two
+    if ( unlikely((*length & (*length-1)) == 0) ) {
+        if ( unlikely(NULL == (buffer = WSS_malloc(MAX(1, *length*2)*sizeof(wss_frame_t *)))) ) {
+            return false;
+        }
+
+        if ( likely(NULL != *frames) ) {
+            memcpy(buffer, *frames, *length*sizeof(wss_frame_t *));
+            WSS_free((void **) frames);
+        }
+
+        *frames = buffer;
+    }
+
+    (*frames)[*length] = frame;
+    *length += 1;
+
+    return true;
+}
+
+/**
+ * Releases memory used by an array of frames.
+ *
+ * @param 	frames      [wss_frame_t **] 	"The array of frames"
+ * @param 	length      [size_t] 	        "The amount of frames in the array"
+ * @return              [void]
+ */
+static void free_frames(wss_frame_t **frames, size_t length) {
+    size_t i;
+
+    for (i = 0; likely(i < length); i++) {
+        WSS_free_frame(frames[i]);
+    }
+    WSS_free((void **) &frames);
+}
+
 /**
  * Function that reads information from a session.
  *
@@ -967,19 +1014,25 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 WSS_log_trace("Detected that server needs further IO to complete the reading");
                 session->payload = payload;
                 session->payload_length = payload_length;
+                session->offset = offset;
+                session->frames = frames;
+                session->frames_length = frames_length;
+                WSS_free((void **) &buffer);
 
                 session->event = WRITE;
 
                 return;
             // An error occured
             case -1:
+                WSS_free((void **) &buffer);
                 WSS_free((void **) &payload);
+                free_frames(frames, frames_length);
 
                 frame = WSS_closing_frame(CLOSE_UNEXPECTED, NULL);
                 message_length = WSS_stringify_frame(frame, &message);
                 WSS_free_frame(frame);
 
-                if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
+                if ( unlikely(message_length == 0 || NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
                     WSS_log_error("Unable to allocate the message structure");
                     WSS_free((void **) &message);
                     session->closing = true;
@@ -1002,6 +1055,8 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             default:
                 if ( unlikely(NULL == (payload = WSS_realloc((void **) &payload, payload_length*sizeof(char), (payload_length+n+1)*sizeof(char)))) ) {
                     WSS_log_error("Unable to reallocate the payload");
+                    WSS_free((void **) &buffer);
+                    free_frames(frames, frames_length);
                     session->closing = true;
                     return;
                 }
@@ -1016,6 +1071,18 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     // Release memory used for buffer
     WSS_free((void **) &buffer);
 
+    // Another job could already have read the data
+    if ( unlikely(NULL == payload) ) {
+        WSS_log_trace("No data was received, will wait for more");
+
+        session->state = (NULL != frames) ? READING : IDLE;
+        session->frames = frames;
+        session->frames_length = frames_length;
+        session->event = READ;
+
+        return;
+    }
+
     WSS_log_trace("Payload from client was read. Continues flow by parsing frames.");
 
     // Parse the payload into websocket frames
@@ -1025,6 +1092,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         if ( unlikely(NULL == (frame = WSS_parse_frame(payload, payload_length, &offset))) ) {
             WSS_log_trace("Unable to parse frame");
             WSS_free((void **) &payload);
+            free_frames(frames, frames_length);
             session->closing = true;
             return;
         }
@@ -1144,21 +1212,14 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             frame = WSS_pong_frame(frame);
         }
 
-        if ( unlikely(NULL == (frames = WSS_realloc((void **) &frames, frames_length*sizeof(wss_frame_t *),
-                        (frames_length+1)*sizeof(wss_frame_t *)))) ) {
-            WSS_log_error("Unable to reallocate frames");
+        if ( unlikely(NULL == frame || ! append_frame(&frames, &frames_length, frame)) ) {
+            WSS_log_error("Unable to allocate frames");
+            WSS_free_frame(frame);
+            WSS_free((void **) &payload);
+            free_frames(frames, frames_length);
             session->closing = true;
             return;
         }
-        frames[frames_length] = frame;
-        frames_length += 1;
-
-        // Check if frame count is exceeded
-        if ( unlikely(frames_length > server->config->max_frames) ) {
-            WSS_free_frame(frame);
-            frame = WSS_closing_frame(CLOSE_BIG, NULL);
-            frames[frames_length-1] = frame;
-        }
 
         // Close
         if ( unlikely(frame->opcode == CLOSE_FRAME) ) {
@@ -1189,6 +1250,19 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             break;
         }
 
+        // Check that the message does not consist of too many frames
+        if ( unlikely(fragmented && frames[i]->opcode == CONTINUATION_FRAME && i-starting_frame >= server->config->max_frames) ) {
+            WSS_log_trace("Protocol Error: message consists of too many frames");
+            for (j = starting_frame; likely(j < frames_length); j++) {
+                WSS_free_frame(frames[j]);
+            }
+            frames[starting_frame] = WSS_closing_frame(CLOSE_BIG, NULL);
+            frames_length = starting_frame+1;
+            fragmented = false;
+            closing = true;
+            break;
+        }
+
         // If we receive control frame within fragmented frames.
         if ( unlikely(fragmented && (frames[i]->opcode >= 0x8 && frames[i]->opcode <= 0xA)) ) {
             WSS_log_trace("Received control frame within fragmented message");
@@ -1271,6 +1345,12 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     // Sending message to subprotocol and sending it to the filedescriptors
     // returned by the subprotocol.
     for (i = 0; likely(i < frames_length); i++) {
+        // The closing frame could not be created
+        if ( unlikely(NULL == frames[i]) ) {
+            session->closing = true;
+            break;
+        }
+
         // If message consists of single frame or we have the starting frame of
         // a multiframe message, store the starting index
         if ( (frames[i]->fin && !(frames[i]->opcode == 0x0)) ||
@@ -1308,10 +1388,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             if ( unlikely(NULL == (msg = WSS_malloc((msg_length+1)*sizeof(char)))) ) {
                 WSS_log_error("Unable to allocate message");
 
-                for (k = 0; likely(k < frames_length); k++) {
-                    WSS_free_frame(frames[k]);
-                }
-                WSS_free((void **) &frames);
+                free_frames(frames, frames_length);
 
                 session->closing = true;
 
@@ -1367,12 +1444,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         }
     }
 
-    if ( likely(frames_length > 0) ) {
-        for (i = 0; likely(i < frames_length); i++) {
-            WSS_free_frame(frames[i]);
-        }
-        WSS_free((void **) &frames);
-    }
+    free_frames(frames, frames_length);
 
     if (! closing && session->event == NONE) {
         WSS_log_trace("Set epoll file descriptor to read mode after finishing read");
-- 
2.43.0


From 165dbed3e4dba24d01cee798bf847d5ec4fecbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 13/62] fix: do not withhold complete messages because of data
 that follows them

Everything received so far was kept back as long as the last frame or message
was incomplete, and a frame that is too large was awaited completely.
---
 src/worker.c | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 3a4e3d8..a86d246 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1097,20 +1097,17 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             return;
         }
 
-        // Check if we were forced to read beyond the payload to create a full frame
-        if ( unlikely(offset > payload_length) ) {
+        // Check if we were forced to read beyond the payload to create a full
+        // frame. There is no need to wait for a frame that is too large.
+        if ( unlikely(offset > payload_length && ! (frame->payloadLength > server->config->size_frame &&
+                        (offset == SIZE_MAX || offset-frame->applicationDataLength <= payload_length))) ) {
             WSS_log_trace("Detected that data was missing in order to complete frame, will wait for more");
 
             WSS_free_frame(frame);
 
-            session->payload = payload;
-            session->payload_length = payload_length;
-            session->offset = prev_offset;
-            session->frames = frames;
-            session->frames_length = frames_length;
-            session->event = READ;
+            offset = prev_offset;
 
-            return;
+            break;
         }
 
         // If no extension is negotiated, the rsv bits must not be used
@@ -1229,7 +1226,15 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         }
     } while ( likely(offset < payload_length) );
 
-    WSS_free((void **) &payload);
+    // Keep what is left of the payload until the frame is completed
+    if ( unlikely(! closing && offset < payload_length) ) {
+        payload_length -= offset;
+        memmove(payload, payload+offset, payload_length);
+        session->payload = payload;
+        session->payload_length = payload_length;
+    } else {
+        WSS_free((void **) &payload);
+    }
 
     WSS_log_trace("A total of %lu frames was parsed.", frames_length);
 
@@ -1329,16 +1334,21 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(fragmented) ) {
         WSS_log_trace("Detected missing frames in fragmented message, will wait for further IO");
 
-        session->frames = frames;
-        session->frames_length = frames_length;
-        session->event = READ;
+        len = frames_length;
+        frames_length = starting_frame;
 
-        return;
+        for (i = starting_frame; likely(i < len); i++) {
+            if ( unlikely(! append_frame(&session->frames, &session->frames_length, frames[i])) ) {
+                WSS_log_error("Unable to allocate frames");
+                session->closing = true;
+                WSS_free_frame(frames[i]);
+            }
+        }
     }
 
     WSS_log_trace("Frames was validated");
-    
-    session->state = IDLE;
+
+    session->state = (NULL != session->payload || NULL != session->frames) ? READING : IDLE;
 
     WSS_log_trace("Sending frames to receivers");
 
-- 
2.43.0


From d266f77526df4035b3265077a02a89f5151d0fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 14/62] fix: fail the connection when an extension could not
 handle a frame

---
 src/worker.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index a86d246..b5d7c45 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -973,6 +973,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     size_t msg_offset = 0;
     size_t starting_frame = 0;
     bool fragmented = false;
+    bool rsv = false;
     char *buffer;
 
     // If no initial header has been seen for the session, the websocket
@@ -1393,6 +1394,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
             for (j = starting_frame; likely(j <= i); j++) {
                 msg_length += frames[j]->applicationDataLength;
+                rsv |= frames[j]->rsv1 | frames[j]->rsv2 | frames[j]->rsv3;
             }
 
             if ( unlikely(NULL == (msg = WSS_malloc((msg_length+1)*sizeof(char)))) ) {
@@ -1412,20 +1414,26 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
             WSS_log_debug("Unmasked message (%d bytes): %s\n", msg_length, msg);
 
-            // Check utf8 for text frames
-            if ( unlikely(frames[starting_frame]->opcode == TEXT_FRAME && ! utf8_check(msg, msg_length)) ) {
+            // Check utf8 for text frames and that the extensions were able to
+            // handle the frames, in which case no rsv bits are left
+            if ( unlikely(rsv || (frames[starting_frame]->opcode == TEXT_FRAME && ! utf8_check(msg, msg_length))) ) {
                 WSS_log_trace("UTF8 Error: the text was not UTF8 encoded correctly");
 
                 for (j = starting_frame; likely(j < frames_length); j++) {
                     WSS_free_frame(frames[j]);
                 }
-                frames[starting_frame] = WSS_closing_frame(CLOSE_UTF8, NULL);
+                frames[starting_frame] = WSS_closing_frame(rsv ? CLOSE_PROTOCOL : CLOSE_UTF8, NULL);
                 frames_length = starting_frame+1;
                 i = starting_frame;
                 len = 1;
                 WSS_free((void **) &msg);
                 msg_length = 0;
                 closing = true;
+
+                if ( unlikely(NULL == frames[starting_frame]) ) {
+                    session->closing = true;
+                    break;
+                }
             }
 
             if ( likely(frames[starting_frame]->opcode == TEXT_FRAME || frames[starting_frame]->opcode == BINARY_FRAME) ) {
-- 
2.43.0


From 7469d5dd42ea61a0ed03a2fc6f4ee88f8779881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 15/62] fix: close the connection when the closing frame was
 written in several parts

---
 src/worker.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index b5d7c45..9762dde 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1508,9 +1508,8 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
             message_length = message->length;
 
             while ( likely(bytes_sent < message_length) ) {
-                // Check if message contains closing byte
-                if ( unlikely(message->framed && bytes_sent == 0 &&
-                     ((message->msg[0] & 0xF) & 0x8) == (message->msg[0] & 0xF)) ) {
+                // Check if message is a closing frame
+                if ( unlikely(message->framed && (message->msg[0] & 0xF) == CLOSE_FRAME) ) {
                     closing = true;
                 }
 
-- 
2.43.0


From 420cdaed3e164e8255fff90286b9c89ad3a5d60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 16/62] fix: retry what was interrupted and only then

A read that was interrupted closed the connection, a job was lost when the queue
of the thread pool was full and a stale errno made the poll functions repeat.
---
 src/event.c  | 6 +++---
 src/worker.c | 9 +++++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/event.c b/src/event.c
index b914dac..89f635e 100644
--- a/src/event.c
+++ b/src/event.c
@@ -137,7 +137,7 @@ wss_error_t WSS_add_to_threadpool(wss_server_t *server, void (*func)(void *), vo
                     return WSS_THREADPOOL_ERROR;
             }
         }
-    } while (0);
+    } while ( unlikely(err != 0) );
 
     return WSS_SUCCESS;
 }
@@ -534,7 +534,7 @@ static inline wss_error_t WSS_poll_add(int poll_fd, int fd, uint32_t events) {
                 ret = epoll_ctl(poll_fd, EPOLL_CTL_ADD, fd, &event);
             }
         }
-    } while ( unlikely(errno == EINTR) );
+    } while ( unlikely(ret < 0 && errno == EINTR) );
 
     if ( unlikely(ret < 0) ) {
         WSS_log_error("Failed to (re)arm file descriptor to epoll: %s", strerror(errno));
@@ -701,7 +701,7 @@ wss_error_t WSS_poll_remove(wss_server_t *server, int fd) {
         event.data.fd = fd;
 
         ret = epoll_ctl(server->poll_fd, EPOLL_CTL_DEL, fd, &event);
-    } while ( unlikely(errno == EINTR) );
+    } while ( unlikely(ret < 0 && errno == EINTR) );
 
     if ( unlikely(ret < 0) ) {
         WSS_log_error("Failed to remove session %d from epoll: %s", fd, strerror(errno));
diff --git a/src/worker.c b/src/worker.c
index 9762dde..2f2db7f 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -474,6 +474,11 @@ void WSS_connect(wss_server_t *server) {
                 break;
             }
 
+            // Other connections could still be waiting
+            if ( unlikely(EINTR == errno || ECONNABORTED == errno) ) {
+                continue;
+            }
+
             WSS_log_fatal("Accept failed: %s", strerror(errno));
             break;
         }
@@ -597,16 +602,16 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
             n = read(session->fd, buffer, server->config->size_buffer);
             if (n == -1) {
                 if ( unlikely(errno == EINTR) ) {
-                    errno = 0;
                     continue;
                 } else if ( unlikely(errno != EAGAIN && errno != EWOULDBLOCK) ) {
                     WSS_log_error("Read failed: %s", strerror(errno));
                     session->closing = true;
+                    break;
                 } else {
                     n = 0;
                 }
             }
-        } while ( unlikely(0) );
+        } while ( unlikely(n == -1) );
     }
 
     return n;
-- 
2.43.0


From a51efffe8368b9585b85cedebfd4ac500c553d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 17/62] fix: handle a disconnect in any state of the session,
 but not that of an earlier session

---
 src/worker.c | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 2f2db7f..98991a7 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -15,6 +15,12 @@
 #include <netinet/in.h>         /* sockaddr_in, inet_ntoa */
 #include <arpa/inet.h>          /* htonl, htons, inet_ntoa */
 
+#include <poll.h>               /* poll */
+
+#ifndef POLLRDHUP
+#define POLLRDHUP  0x2000
+#endif
+
 #include <pthread.h> 			/* pthread_create, pthread_t, pthread_attr_t
                                    pthread_mutex_init */
 
@@ -1635,6 +1641,22 @@ void WSS_flush(wss_server_t *server, wss_session_t *session) {
     }
 }
 
+/**
+ * Determines whether the client has disconnected.
+ *
+ * @param 	fd  [int] 	"The filedescriptor of the client"
+ * @return      [bool]  "Whether the client has disconnected"
+ */
+static bool hangup(int fd) {
+    struct pollfd event;
+
+    event.fd = fd;
+    event.events = POLLRDHUP;
+    event.revents = 0;
+
+    return poll(&event, 1, 0) > 0;
+}
+
 /**
  * Function that performs and distributes the IO work.
  *
@@ -1670,8 +1692,15 @@ void WSS_work(void *args) {
 
     session->working = true;
 
-    // Another job has already decided to close the session
-    if ( unlikely(session->closing) ) {
+    // The event could have occured for a session that used the same
+    // filedescriptor before this one
+    if ( unlikely(session_state == CLOSING && ! session->closing && ! hangup(fd)) ) {
+        session_state = READING;
+    }
+
+    // The client has disconnected or another job has already decided to close
+    // the session
+    if ( unlikely(session->closing || session_state == CLOSING) ) {
         WSS_disconnect(server, session);
         return;
     }
@@ -1724,10 +1753,6 @@ void WSS_work(void *args) {
                     session->event = READ;
                     WSS_write(server, session);
                     break;
-                case CLOSING:
-                    session->closing = true;
-                    WSS_log_trace("Handling close event");
-                    break;
                 case READING:
                     WSS_log_trace("Handling read event");
                     WSS_read(server, session);
-- 
2.43.0


From 4f7644c7f818cdb438868a3e3916436fc2ea3a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 18/62] fix: do not lose memory or connections when a session
 cannot be created

---
 src/session.c | 2 +-
 src/worker.c  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/session.c b/src/session.c
index 3968ca2..cabf434 100644
--- a/src/session.c
+++ b/src/session.c
@@ -196,7 +196,7 @@ static wss_error_t session_delete(wss_session_t *session) {
 
         WSS_log_trace("Free frames");
         for (j = 0; likely(j < session->frames_length); j++) {
-            WSS_free((void **) &session->frames[j]);
+            WSS_free_frame(session->frames[j]);
         }
         WSS_free((void **) &session->frames);
 
diff --git a/src/worker.c b/src/worker.c
index 98991a7..b60fd89 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -501,6 +501,7 @@ void WSS_connect(wss_server_t *server) {
 
         if ( unlikely(NULL == (session = WSS_session_add(client_fd,
                         ip, ntohs(client.sin6_port)))) ) {
+            close(client_fd);
             continue;
         }
 
@@ -515,14 +516,14 @@ void WSS_connect(wss_server_t *server) {
         if ( unlikely(NULL == (ringbuf = WSS_malloc(ringbuf_obj_size))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer");
             WSS_disconnect(server, session);
-            return;
+            continue;
         }
 
         if ( unlikely(NULL == (session->messages = WSS_malloc(server->config->size_ringbuffer*sizeof(wss_message_t *)))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer messages");
             WSS_free((void **)&ringbuf);
             WSS_disconnect(server, session);
-            return;
+            continue;
         }
         session->messages_count = server->config->size_ringbuffer;
 
-- 
2.43.0


From 31100cbfda1d56d3eb52eabd3e972d3a2dd9c17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 19/62] fix: do not stop the server when a job cannot be added
 to the thread pool

---
 src/event.c | 86 +++++++++++++++++++++++++++--------------------------
 1 file changed, 44 insertions(+), 42 deletions(-)

diff --git a/src/event.c b/src/event.c
index 89f635e..cb42397 100644
--- a/src/event.c
+++ b/src/event.c
@@ -711,6 +711,46 @@ wss_error_t WSS_poll_remove(wss_server_t *server, int fd) {
     return WSS_SUCCESS;
 }
 
+/**
+ * Function that makes the worker pool perform the job of an event. If this is
+ * not possible at the moment, the filedescriptor is rearmed such that the event
+ * occurs again.
+ *
+ * @param 	server	    [wss_server_t *]        "A pointer to a server structure"
+ * @param 	fd	        [int]                   "The file descriptor of the event"
+ * @param 	state	    [wss_session_state_t]   "The state describing the job"
+ * @return 			    [wss_error_t]           "The error status"
+ */
+static wss_error_t delegate(wss_server_t *server, int fd, wss_session_state_t state) {
+    wss_error_t err = WSS_MEMORY_ERROR;
+    wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
+
+    if ( likely(NULL != args) ) {
+        args->server = server;
+        args->fd = fd;
+        args->state = state;
+
+        if ( likely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) == WSS_SUCCESS) ) {
+            return WSS_SUCCESS;
+        }
+
+        WSS_free((void **)&args);
+    }
+
+    if ( unlikely(err != WSS_MEMORY_ERROR && err != WSS_THREADPOOL_FULL_ERROR) ) {
+        return err;
+    }
+
+    if (fd == server->fd) {
+        return WSS_poll_add(server->poll_fd, fd, EPOLLIN | EPOLLET | EPOLLRDHUP);
+    }
+
+    // A session that was closed meanwhile cannot be rearmed
+    WSS_poll_add(server->poll_fd, fd, EPOLLIN | EPOLLOUT | EPOLLET | EPOLLONESHOT | EPOLLRDHUP);
+
+    return WSS_SUCCESS;
+}
+
 /**
  * Function that listens for new events on the servers file descriptor 
  *
@@ -755,35 +795,17 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
 
             WSS_log_trace("Session %d disconnecting", events[i].data.fd);
 
-            wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
-            if ( unlikely(NULL == args) ) {
-                WSS_log_fatal("Failed allocating threadpool argument");
-                return WSS_MEMORY_ERROR;
-            }
-            args->server = server;
-            args->fd = events[i].data.fd;
-            args->state = CLOSING;
-
-            if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
+            if ( unlikely((err = delegate(server, events[i].data.fd, CLOSING)) != WSS_SUCCESS) ) {
                 WSS_log_fatal("Failed adding disconnect job to worker pool");
-                WSS_free((void **)&args);
                 return err;
             }
         } else if ( events[i].data.fd == server->fd ) {
             WSS_log_trace("New session connecting");
 
-            wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
-            if ( unlikely(NULL == args) ) {
-                WSS_log_fatal("Failed allocating threadpool argument");
-                return WSS_MEMORY_ERROR;
-            }
-            args->server = server;
-            args->state = CONNECTING;
-
             /**
              * If new session has connected
              */
-            if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
+            if ( unlikely((err = delegate(server, server->fd, CONNECTING)) != WSS_SUCCESS) ) {
                 WSS_log_fatal("Failed adding connect job to worker pool");
                 return err;
             }
@@ -800,18 +822,8 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
                 /**
                  * If new reads are ready
                  */
-                wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
-                if ( unlikely(NULL == args) ) {
-                    WSS_log_fatal("Failed allocating threadpool argument");
-                    return WSS_MEMORY_ERROR;
-                }
-                args->server = server;
-                args->fd = events[i].data.fd;
-                args->state = READING;
-
-                if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
+                if ( unlikely((err = delegate(server, events[i].data.fd, READING)) != WSS_SUCCESS) ) {
                     WSS_log_fatal("Failed adding read job to worker pool");
-                    WSS_free((void **)&args);
                     return err;
                 }
             }
@@ -822,18 +834,8 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
                 /**
                  * If new writes are ready
                  */
-                wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
-                if ( unlikely(NULL == args) ) {
-                    WSS_log_fatal("Failed allocating threadpool argument");
-                    return WSS_MEMORY_ERROR;
-                }
-                args->server = server;
-                args->fd = events[i].data.fd;
-                args->state = WRITING;
-
-                if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
+                if ( unlikely((err = delegate(server, events[i].data.fd, WRITING)) != WSS_SUCCESS) ) {
                     WSS_log_fatal("Failed adding write job to worker pool");
-                    WSS_free((void **)&args);
                     return err;
                 }
             }
-- 
2.43.0


From 0953948ecbb461d40d7d4b9b5848c2573968c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 20/62] fix: ping and time out sessions without interfering
 with other users of the session

The cleanup thread deleted sessions and wrote to them while a worker was using
them, and a session used after the timestamp was taken was seen as timed out.
---
 src/message.c |  14 +++++
 src/server.c  | 152 +++++++++++++++-----------------------------------
 2 files changed, 58 insertions(+), 108 deletions(-)

diff --git a/src/message.c b/src/message.c
index d2cf98d..2c9f0b3 100644
--- a/src/message.c
+++ b/src/message.c
@@ -21,6 +21,13 @@ wss_error_t WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames
     wss_server_t *server = (wss_server_t *)serv;
     wss_session_t *session = (wss_session_t *)sess;
 
+    // The frames could not be created
+    if ( unlikely(NULL == frames || frames_count == 0 || NULL == frames[0]) ) {
+        WSS_log_error("No frames to send");
+
+        return WSS_MEMORY_ERROR;
+    }
+
     // The messages must be written in the same order as the extensions saw them
     if ( unlikely(0 != pthread_mutex_lock(&session->lock_send)) ) {
         WSS_log_error("Unable to lock session send lock");
@@ -98,6 +105,13 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
         server = servers.https;
     }
 
+    // The session could be one that reuses the filedescriptor
+    if ( unlikely(! session->handshaked) ) {
+        WSS_log_error("Session to send message to has not been handshaked");
+        WSS_session_jobs_dec(session);
+        return;
+    }
+
     WSS_log_trace("Creating frames");
 
     frames_count = WSS_create_frames(server->config, opcode, message, message_length, &frames);
diff --git a/src/server.c b/src/server.c
index aab25f6..be9acdb 100644
--- a/src/server.c
+++ b/src/server.c
@@ -9,6 +9,7 @@
 
 #include "server.h"
 #include "frame.h"
+#include "message.h"
 #include "event.h"               
 #include "log.h"
 #include "session.h"
@@ -39,63 +40,20 @@ wss_servers_t servers;
  */
 struct timespec now;
 
-static inline void write_control_frame(wss_frame_t *frame, wss_session_t *session) {
-    size_t j;
-    char *message;
-    size_t message_length;
-    int n = 0;
-    int fd = session->fd;
-
-    // Use extensions
-    for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
-        session->header->ws_extensions[j]->ext->outframes(
-                fd,
-                &frame,
-                1);
-
-        session->header->ws_extensions[j]->ext->outframe(
-                fd,
-                frame);
-    }
-
-    if (0 == (message_length = WSS_stringify_frame(frame, &message))) {
-        WSS_log_fatal("Unable to represent frame as bytes");
-        WSS_free_frame(frame);
-        return;
-    }
-
-    WSS_free_frame(frame);
-
-    if (session->ssl_connected) {
-        WSS_ssl_write(session, message, message_length);
-    } else {
-        size_t written = 0;
-        do {
-            n = write(fd, message+written, message_length-written);
-            if ( unlikely(n < 0) ) {
-                if ( likely(errno == EINTR) ) {
-                    errno = 0;
-                    n = 0;
-                    continue;
-                }
-                break;
-            }
-            written += n;
-        } while ( written < message_length );
-    }
-
-    WSS_free((void **) &message);
-}
-
 static void cleanup_session(wss_session_t *session) {
-    wss_error_t err;
     wss_frame_t *frame;
-    long unsigned int ms;
+    wss_thread_args_t *args;
+    long int ms;
     int fd = session->fd;
     wss_server_t *server = servers.http;
-    bool dc;
+
+    // A session that is being used has not timed out
+    if ( unlikely(0 != pthread_mutex_trylock(&session->lock)) ) {
+        return;
+    }
 
     if (! session->handshaked) {
+        pthread_mutex_unlock(&session->lock);
         return;
     }
 
@@ -103,86 +61,64 @@ static void cleanup_session(wss_session_t *session) {
         server = servers.https;
     }
 
-    ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
+    // The session could have been used after the current timestamp was taken
+    ms = (now.tv_sec - session->alive.tv_sec)*1000+(now.tv_nsec - session->alive.tv_nsec)/1000000;
 
     WSS_log_info("Check timeout %d ms", ms);
 
     // Session timed out
-    if ( unlikely(server->config->timeout_client >= 0 && ms >= (long unsigned int)server->config->timeout_client) ) {
-        WSS_session_is_disconnecting(session, &dc);
-        if (dc) {
-            return;
-        }
-
-        WSS_session_jobs_wait(session);
-
+    if ( unlikely(server->config->timeout_client >= 0 && ms >= server->config->timeout_client) ) {
         WSS_log_info("Session %d has timedout last active %d ms ago", fd, ms);
 
-        session->closing = true;
-        session->state = CLOSING;
-
-        if (! session->ssl_connected) {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTP request, due to timing out", session->fd, session->ip, session->port);
-        } else {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTPS request, due to timing out", session->fd, session->ip, session->port);
-        }
-
-        WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
+        if (! session->closing) {
+            WSS_log_trace("Sending close frame", fd);
 
-        if ( NULL != session->header && session->header->ws_protocol != NULL ) {
-            WSS_log_trace("Informing subprotocol about session close");
-            session->header->ws_protocol->close(session->fd);
-        }
+            frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL);
 
-        WSS_log_trace("Removing poll filedescriptor from eventlist");
+            WSS_message_send_frames(server, session, &frame, 1);
 
-        WSS_poll_remove(server, fd);
-
-        WSS_log_trace("Sending close frame", fd);
-
-        frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL);
+            WSS_free_frame(frame);
 
-        write_control_frame(frame, session);
+            session->closing = true;
+        }
 
-        WSS_log_trace("Deleting client session");
+        // The session is deleted by a job, such that it is not done while the
+        // session is used. If that is not possible, it is tried again later.
+        if ( likely(NULL != (args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t)))) ) {
+            args->server = server;
+            args->fd = fd;
+            args->state = CLOSING;
 
-        if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete_no_lock(session))) ) {
-            switch (err) {
-                case WSS_SSL_SHUTDOWN_READ_ERROR:
-                        WSS_poll_set_read(server, fd);
-                    return;
-                case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                        WSS_poll_set_write(server, fd);
-                    return;
-                default:
-                    break;
+            if ( unlikely(0 != threadpool_add(server->pool, &WSS_work, (void *)args, 0)) ) {
+                WSS_log_error("Failed adding disconnect job to worker pool");
+                WSS_free((void **) &args);
             }
-            WSS_log_error("Unable to delete client session, received error code: %d", err);
-            return;
         }
 
-        WSS_log_info("Client with session %d disconnected", fd);
-
     // Ping session to keep it alive
-    } else if (server->config->timeout_pings > 0 ) {
+    } else if ( likely(server->config->timeout_pings > 0 && ! session->closing) ) {
         WSS_log_info("Pinging session %d", fd);
 
         frame = WSS_ping_frame();
-        if (session->pong != NULL) {
-            WSS_free((void **) &session->pong);
-            session->pong_length = 0;
-        }
 
-        if (NULL == (session->pong = WSS_malloc(frame->applicationDataLength))) {
-            WSS_free_frame(frame);
-            return;
-        }
-        session->pong_length = frame->applicationDataLength;
+        WSS_free((void **) &session->pong);
+        session->pong_length = 0;
+
+        if ( likely(NULL != frame && NULL != (session->pong = WSS_malloc(frame->applicationDataLength))) ) {
+            session->pong_length = frame->applicationDataLength;
 
-        memcpy(session->pong, frame->payload+frame->extensionDataLength, frame->applicationDataLength);
+            memcpy(session->pong, frame->payload+frame->extensionDataLength, frame->applicationDataLength);
 
-        write_control_frame(frame, session);
+            WSS_message_send_frames(server, session, &frame, 1);
+        }
+
+        WSS_free_frame(frame);
     }
+
+    pthread_mutex_unlock(&session->lock);
+
+    // Messages may have been sent to the session by other threads meanwhile
+    WSS_flush(server, session);
 }
 
 /**
-- 
2.43.0


From 20e95fb72fa267e23fa16ee14e1350611b577d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 21/62] fix: handle empty, large and failed messages in
 permessage-deflate

Messages were copied to the stack, empty ones ended up without a payload, a
failed negotiation left the lock held, and after a failure the compressor no
longer matched what the client had seen.
---
 .../permessage-deflate/permessage-deflate.c   | 241 ++++++++++--------
 1 file changed, 137 insertions(+), 104 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index dc4d66e..d83399c 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -151,11 +151,13 @@ static void parse_param(const char *param, param_t *p) {
             }
         } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, sep, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0) {
             j = strlen(EXT_SERVER_MAX_WINDOW_BITS);
-            while ( sep[j] != '=' ) {
+            while ( sep[j] != '=' && sep[j] != '\0' ) {
                 j++;
             }
 
-            j++;
+            if (sep[j] != '\0') {
+                j++;
+            }
             bits = strtol(sep+j, NULL, 10);
 
             // Is really 8, but zlib does not support value 8 so increase to 9
@@ -288,6 +290,8 @@ void onInit(char *config) {
     regmatch_t matches[nmatch];
     const char *reg_str = "^(\\s*((server_no_context_takeover)|(server_max_window_bits\\s*=\\s*[0-9]+)|(client_max_window_bits\\s*=\\s*[0-9]+)|(memory_level\\s*=\\s*[0-9]+)|(chunk_size\\s*=\\s*[0-9]+))\\s*;?\\s*)*$";
 
+    pthread_mutex_init(&lock, NULL);
+
     if ( NULL == config ) {
         return;
     }
@@ -302,6 +306,7 @@ void onInit(char *config) {
     memcpy(buffer, config, params_length);
 
     err = regexec(&re, buffer, nmatch, matches, 0);
+    regfree(&re);
     if ( unlikely(err != 0) ) {
         return;
     }
@@ -374,9 +379,6 @@ void onInit(char *config) {
         }
     }
 
-    regfree(&re);
-
-    pthread_mutex_init(&lock, NULL);
 }
 
 /**
@@ -420,17 +422,19 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
         }
 
         if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
+            pthread_mutex_unlock(&lock);
             *valid = false;
             return;
         }
 
         comp->fd = fd;
-        comp->params.client_max_window_bits = default_client_window_bits;
+        comp->params.client_max_window_bits = 0;
         comp->params.server_max_window_bits = default_server_window_bits;
         comp->params.client_no_context_takeover = default_client_no_context_takeover;
         comp->params.server_no_context_takeover = default_server_no_context_takeover;
 
         if ( unlikely(! init_comp(comp)) ) {
+            pthread_mutex_unlock(&lock);
             allocs.free(comp);
             *valid = false;
             return;
@@ -455,6 +459,7 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
     memcpy(buffer, param, params_length);
 
     err = regexec(&re, buffer, nmatch, matches, 0);
+    regfree(&re);
     if ( unlikely(err != 0) ) {
         *valid = false;
         return;
@@ -496,14 +501,13 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
         }
     }
 
-    regfree(&re);
-
     if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
         *valid = false;
         return;
     }
 
     if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
+        pthread_mutex_unlock(&lock);
         *valid = false;
         return;
     }
@@ -516,7 +520,9 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
 
     *accepted = negotiate(param, comp);
 
-    if ( unlikely(! init_comp(comp)) ) {
+    // The client must know what was negotiated
+    if ( unlikely(NULL == *accepted || ! init_comp(comp)) ) {
+        pthread_mutex_unlock(&lock);
         allocs.free(comp);
         *valid = false;
         return;
@@ -529,6 +535,89 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
     pthread_mutex_unlock(&lock);
 }
 
+/**
+ * Replaces the payload of the frames with the message, using the same amount of
+ * frames.
+ *
+ * @param 	frames	        [wss_frame_t **]  "The websocket frames"
+ * @param 	len	            [size_t]          "The amount of frames"
+ * @param 	message	        [char *]          "The message"
+ * @param 	message_length	[size_t]          "The length of the message"
+ * @return 	                [bool]            "Whether the payload was replaced, otherwise the frames are unchanged"
+ */
+static bool set_message(wss_frame_t **frames, size_t len, char *message, size_t message_length) {
+    size_t i, j;
+    size_t size = message_length/len;
+    size_t last = message_length-size*(len-1);
+    char **payloads;
+
+    if ( unlikely(NULL == (payloads = allocs.malloc(len*sizeof(char *)))) ) {
+        return false;
+    }
+
+    for (i = 0; likely(i < len); i++) {
+        if ( unlikely(NULL == (payloads[i] = allocs.malloc((i+1 != len ? size : last)+1))) ) {
+            for (j = 0; j < i; j++) {
+                allocs.free(payloads[j]);
+            }
+            allocs.free(payloads);
+
+            return false;
+        }
+        memcpy(payloads[i], message+i*size, i+1 != len ? size : last);
+    }
+
+    for (i = 0; likely(i < len); i++) {
+        allocs.free(frames[i]->payload);
+        frames[i]->payload = payloads[i];
+        frames[i]->extensionDataLength = 0;
+        frames[i]->applicationDataLength = i+1 != len ? size : last;
+        frames[i]->payloadLength = frames[i]->applicationDataLength;
+    }
+
+    allocs.free(payloads);
+
+    return true;
+}
+
+/**
+ * Compresses the input of the compressor and appends it to the message.
+ *
+ * @param 	comp	        [wss_comp_t *]  "The compressor of the session"
+ * @param 	flush_mask	    [int]           "How to flush the compressor"
+ * @param 	message	        [char **]       "The message, which is freed upon failure"
+ * @param 	message_length	[size_t *]      "The length of the message"
+ * @return 	                [bool]          "Whether the input was compressed, otherwise the compressor is reset"
+ */
+static bool compress_message(wss_comp_t *comp, int flush_mask, char **message, size_t *message_length) {
+    char *buffer;
+
+    do {
+        if ( unlikely(NULL == (buffer = allocs.realloc(*message, (*message_length+default_chunk_size+2)*sizeof(char)))) ) {
+            deflateReset(&comp->compressor);
+            return false;
+        }
+        *message = buffer;
+        memset(*message+*message_length, '\0', default_chunk_size+2);
+
+        comp->compressor.avail_out = default_chunk_size;
+        comp->compressor.next_out = (unsigned char *)*message+*message_length;
+        switch (deflate(&comp->compressor, flush_mask)) {
+            case Z_OK:
+            case Z_STREAM_END:
+            case Z_BUF_ERROR:
+                break;
+            default:
+                allocs.free(*message);
+                deflateReset(&comp->compressor);
+                return false;
+        }
+        *message_length += default_chunk_size - comp->compressor.avail_out;
+    } while ( comp->compressor.avail_out == 0 );
+
+    return true;
+}
+
 /**
  * Event called when a frame_t of data is received.
  *
@@ -548,7 +637,8 @@ void inFrame(int fd, wss_frame_t *frame) {
  * @return 	          [void]
  */
 void inFrames(int fd, wss_frame_t **frames, size_t len) {
-    size_t j, size;
+    size_t j;
+    char *payload;
     char *message = NULL;
     size_t payload_length = 0;
     wss_comp_t *comp = NULL;
@@ -577,12 +667,15 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
     }
     payload_length += 4;
 
-    char payload[payload_length+1];
-    payload[payload_length] = '\0';
+    if ( unlikely(NULL == (payload = allocs.malloc(payload_length+1))) ) {
+        return;
+    }
 
     for (j = 0; likely(j < len); j++) {
-        memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
-        current_length += frames[j]->payloadLength;
+        if ( likely(frames[j]->payloadLength > 0) ) {
+            memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
+            current_length += frames[j]->payloadLength;
+        }
     }
 
     memcpy(payload+current_length, "\x00\x00\xff\xff", 4);
@@ -597,7 +690,7 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
     // Decompress data
     do {
         if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+1)*sizeof(char)))) ) {
-            allocs.free(message);
+            allocs.free(payload);
             return; 
         }
         memset(message+message_length, '\0', default_chunk_size+1); 
@@ -610,34 +703,18 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
             case Z_BUF_ERROR:
                 break;
             default:
+                allocs.free(payload);
                 allocs.free(message);
                 return;
         }
         message_length += default_chunk_size - comp->decompressor.avail_out;
     } while ( comp->decompressor.avail_out == 0 );
 
-    // unset rsv1 bit
-    frames[0]->rsv1 = false;
-    current_length = 0;
-
-    // Reallocate application data to contain the decompressed data in the same
-    // amount of frames
-    for (j = 0; likely(j < len); j++) {
-        if ( likely(j+1 != len) ) {
-            size = message_length/len;
-        } else {
-            size = message_length-current_length;
-        }
+    allocs.free(payload);
 
-        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size))) ) {
-            allocs.free(message);
-            return;
-        }
-        memcpy(frames[j]->payload, message+current_length, size);
-        current_length += size;
-        frames[j]->extensionDataLength = 0;
-        frames[j]->applicationDataLength = size;
-        frames[j]->payloadLength = size;
+    // unset rsv1 bit
+    if ( likely(set_message(frames, len, message, message_length)) ) {
+        frames[0]->rsv1 = false;
     }
 
     allocs.free(message);
@@ -662,7 +739,8 @@ void outFrame(int fd, wss_frame_t *frame) {
  * @return 	          [void]
  */
 void outFrames(int fd, wss_frame_t **frames, size_t len) {
-    size_t j, size;
+    size_t j;
+    char *payload;
     char *message = NULL;
     size_t payload_length = 0;
     size_t current_length = 0;
@@ -690,12 +768,15 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
         payload_length += frames[j]->payloadLength; 
     }
 
-    char payload[payload_length+1];
-    payload[payload_length] = '\0';
+    if ( unlikely(NULL == (payload = allocs.malloc(payload_length+1))) ) {
+        return;
+    }
 
     for (j = 0; likely(j < len); j++) {
-        memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
-        current_length += frames[j]->payloadLength;
+        if ( likely(frames[j]->payloadLength > 0) ) {
+            memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
+            current_length += frames[j]->payloadLength;
+        }
     }
 
     // https://github.com/madler/zlib/issues/149
@@ -707,51 +788,20 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
     comp->compressor.avail_in = payload_length;
     comp->compressor.next_in = (unsigned char *)payload;
 
-    do {
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
-            allocs.free(message);
-            return; 
-        }
-        memset(message+message_length, '\0', default_chunk_size+2); 
-
-        comp->compressor.avail_out = default_chunk_size;
-        comp->compressor.next_out = (unsigned char *)message+message_length;
-        switch (deflate(&comp->compressor, flush_mask)) {
-            case Z_OK:
-            case Z_STREAM_END:
-            case Z_BUF_ERROR:
-                break;
-            default:
-                allocs.free(message);
-                return;
-        }
-        message_length += default_chunk_size - comp->compressor.avail_out;
-    } while ( comp->compressor.avail_out == 0 );
+    if ( unlikely(! compress_message(comp, flush_mask, &message, &message_length)) ) {
+        allocs.free(payload);
+        return;
+    }
 
     // https://github.com/madler/zlib/issues/149
-    if (comp->params.server_no_context_takeover) {
-        flush_mask = Z_FULL_FLUSH;
-
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
-            allocs.free(message);
-            return; 
-        }
-        memset(message+message_length, '\0', default_chunk_size+2); 
-
-        comp->compressor.avail_out = default_chunk_size;
-        comp->compressor.next_out = (unsigned char *)message+message_length;
-        switch (deflate(&comp->compressor, flush_mask)) {
-            case Z_OK:
-            case Z_STREAM_END:
-            case Z_BUF_ERROR:
-                break;
-            default:
-                allocs.free(message);
-                return;
-        }
-        message_length += default_chunk_size - comp->compressor.avail_out;
+    if ( unlikely(comp->params.server_no_context_takeover &&
+                ! compress_message(comp, Z_FULL_FLUSH, &message, &message_length)) ) {
+        allocs.free(payload);
+        return;
     }
 
+    allocs.free(payload);
+
     if ( unlikely(message_length < 5 || memcmp(message+message_length-4, "\x00\x00\xff\xff", 4) != 0) ) {
         message[message_length] = '\x00';
         message_length++;
@@ -761,28 +811,11 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
     }
 
     // set rsv1 bit
-    frames[0]->rsv1 = true;
-
-    current_length = 0;
-
-    // Reallocate application data to contain the compressed data in the same
-    // amount of frames
-    for (j = 0; likely(j < len); j++) {
-        if ( likely(j+1 != len) ) {
-            size = message_length/len;
-        } else {
-            size = message_length-current_length;
-        }
-
-        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size))) ) {
-            allocs.free(message);
-            return;
-        }
-        memcpy(frames[j]->payload, message+current_length, size);
-        current_length += size;
-        frames[j]->extensionDataLength = 0;
-        frames[j]->applicationDataLength = size;
-        frames[j]->payloadLength = size;
+    if ( likely(set_message(frames, len, message, message_length)) ) {
+        frames[0]->rsv1 = true;
+    } else {
+        // The client will not see what was compressed
+        deflateReset(&comp->compressor);
     }
 
     allocs.free(message);
-- 
2.43.0


From d18db8c8b2c9457d4896eaa221c26c3629956c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 22/62] fix: free the list of paths of the configuration

---
 src/config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.c b/src/config.c
index d7d3938..57969fa 100644
--- a/src/config.c
+++ b/src/config.c
@@ -620,6 +620,7 @@ wss_error_t WSS_config_free(wss_config_t *config) {
         WSS_free((void **) &config->string);
         WSS_free((void **) &config->hosts);
         WSS_free((void **) &config->origins);
+        WSS_free((void **) &config->paths);
         WSS_free((void **) &config->queries);
         WSS_free((void **) &config->extensions);
         WSS_free((void **) &config->subprotocols);
-- 
2.43.0


From f4c3fbe7bf3aba188379ddce61279f5f0d70cfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 23/62] fix: do not lose a stop signal that arrives before the
 server is running

---
 src/server.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server.c b/src/server.c
index be9acdb..acad550 100644
--- a/src/server.c
+++ b/src/server.c
@@ -360,6 +360,11 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_server_set_state(STARTING);
 
+    // A signal from now on must not be overwritten by a later change of state
+    WSS_log_trace("Setting to running state");
+
+    WSS_server_set_state(RUNNING);
+
     // Listening for signals that could terminate program
     WSS_log_trace("Listening for signals");
 
@@ -462,10 +467,6 @@ int WSS_server_start(wss_config_t *config) {
         pthread_mutex_destroy(&state.lock);
     }
 
-    WSS_log_trace("Setting to running state");
-
-    WSS_server_set_state(RUNNING);
-
     WSS_log_trace("Creating HTTP Instance");
 
     http->config       = config;
-- 
2.43.0


From 2fc0d924053dfb49046f3cd0078b889f87f05342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 24/62] fix: release the lock when the thread pool is already
 shutting down

---
 src/pool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pool.c b/src/pool.c
index 7ac6527..1b13f0e 100644
--- a/src/pool.c
+++ b/src/pool.c
@@ -232,6 +232,7 @@ int threadpool_destroy(threadpool_t *pool, int flags) {
         /* Already shutting down */
         if (pool->shutdown) {
             err = threadpool_shutdown;
+            pthread_mutex_unlock(&(pool->lock));
             break;
         }
 
-- 
2.43.0


From bf607c8c75ee3ea9f8bba4021820e8841dd7c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 25/62] fix: free everything when creating the thread pool
 fails

---
 src/pool.c | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/pool.c b/src/pool.c
index 1b13f0e..46d8658 100644
--- a/src/pool.c
+++ b/src/pool.c
@@ -266,19 +266,11 @@ int threadpool_free(threadpool_t *pool) {
         return -1;
     }
 
-    /* Did we manage to allocate ? */
-    if (pool->threads) {
-        pthread_attr_destroy(&pool->attr);
-        WSS_free((void **) &pool->threads);
-        WSS_free((void **) &pool->queue);
-
-        /* Because we allocate pool->threads after initializing the
-           mutex and condition variable, we're sure they're
-           initialized. Let's lock the mutex just in case. */
-        pthread_mutex_lock(&(pool->lock));
-        pthread_mutex_destroy(&(pool->lock));
-        pthread_cond_destroy(&(pool->notify));
-    }
+    pthread_attr_destroy(&pool->attr);
+    WSS_free((void **) &pool->threads);
+    WSS_free((void **) &pool->queue);
+    pthread_mutex_destroy(&(pool->lock));
+    pthread_cond_destroy(&(pool->notify));
 
     WSS_free((void **) &pool);
     return 0;
-- 
2.43.0


From e16cbb0927056fe9d2850594f5a64c52dc3c31f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 26/62] fix: fail when no temporary ring buffer worker can be
 registered

---
 src/ringbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index be583d5..9676aa5 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -196,7 +196,7 @@ register_worker(ringbuf_t *rbuf, unsigned registration_type)
 	}
 
 	/* Register this worker-record. */
-	return w;
+	return acquired ? w : NULL;
 }
 
 /*
-- 
2.43.0


From ddf3bb69b841d6458a8f4e4473275d1882d4e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 27/62] fix: reclaim idle connections that never finish the
 handshake

The cleanup thread skipped sessions that had not completed the websocket
handshake, so a peer that connected and stayed silent was kept forever.
---
 src/server.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/server.c b/src/server.c
index acad550..a3031bc 100644
--- a/src/server.c
+++ b/src/server.c
@@ -52,12 +52,13 @@ static void cleanup_session(wss_session_t *session) {
         return;
     }
 
-    if (! session->handshaked) {
+    // A session that is still being set up has not been active yet
+    if ( unlikely(session->alive.tv_sec == 0 && session->alive.tv_nsec == 0) ) {
         pthread_mutex_unlock(&session->lock);
         return;
     }
 
-    if (NULL != session->ssl && session->ssl_connected) {
+    if (NULL != session->ssl) {
         server = servers.https;
     }
 
@@ -71,13 +72,16 @@ static void cleanup_session(wss_session_t *session) {
         WSS_log_info("Session %d has timedout last active %d ms ago", fd, ms);
 
         if (! session->closing) {
-            WSS_log_trace("Sending close frame", fd);
+            // Frames can only be sent after the websocket handshake
+            if ( likely(session->handshaked) ) {
+                WSS_log_trace("Sending close frame", fd);
 
-            frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL);
+                frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL);
 
-            WSS_message_send_frames(server, session, &frame, 1);
+                WSS_message_send_frames(server, session, &frame, 1);
 
-            WSS_free_frame(frame);
+                WSS_free_frame(frame);
+            }
 
             session->closing = true;
         }
@@ -96,7 +100,7 @@ static void cleanup_session(wss_session_t *session) {
         }
 
     // Ping session to keep it alive
-    } else if ( likely(server->config->timeout_pings > 0 && ! session->closing) ) {
+    } else if ( likely(session->handshaked && server->config->timeout_pings > 0 && ! session->closing) ) {
         WSS_log_info("Pinging session %d", fd);
 
         frame = WSS_ping_frame();
-- 
2.43.0


From 0ca96ea2a97c9cd4415296fa6f95da694550545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 28/62] fix: end connections that cannot be polled

A connection for which no events could be registered was kept forever, since
nothing would ever happen to it again.
---
 src/ssl.c    | 14 +++++++++++---
 src/worker.c |  6 +++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ssl.c b/src/ssl.c
index cb973ee..ce777a9 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -537,7 +537,10 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
 
         clock_gettime(CLOCK_MONOTONIC, &session->alive);
 
-        WSS_poll_set_read(server, session->fd);
+        // Without events nothing would ever happen to the session
+        if ( unlikely(WSS_SUCCESS != WSS_poll_set_read(server, session->fd)) ) {
+            session->closing = true;
+        }
 
         return;
     }
@@ -548,7 +551,10 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
 
         clock_gettime(CLOCK_MONOTONIC, &session->alive);
 
-        WSS_poll_set_write(server, session->fd);
+        // Without events nothing would ever happen to the session
+        if ( unlikely(WSS_SUCCESS != WSS_poll_set_write(server, session->fd)) ) {
+            session->closing = true;
+        }
 
         return;
     }
@@ -583,7 +589,9 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
 
     clock_gettime(CLOCK_MONOTONIC, &session->alive);
 
-    WSS_poll_set_read(server, session->fd);
+    if ( unlikely(WSS_SUCCESS != WSS_poll_set_read(server, session->fd)) ) {
+        session->closing = true;
+    }
 #endif
 }
 
diff --git a/src/worker.c b/src/worker.c
index b60fd89..4ef19d7 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -552,7 +552,11 @@ void WSS_connect(wss_server_t *server) {
 
             clock_gettime(CLOCK_MONOTONIC, &session->alive);
 
-            WSS_poll_set_read(server, session->fd);
+            // Without events nothing would ever happen to the session
+            if ( unlikely(WSS_SUCCESS != WSS_poll_set_read(server, session->fd)) ) {
+                WSS_disconnect(server, session);
+                continue;
+            }
 
             WSS_log_info("Client with session %d connected", session->fd);
 
-- 
2.43.0


From 02ca5a437b15c1449eb05060089a0fe8ed00695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 29/62] fix: accept waiting connections after resources were
 exhausted

The listening socket is polled edge triggered. When accept failed because no
file descriptor or memory was available, connections that were already waiting
were not accepted until yet another one arrived.
---
 include/event.h |  9 +++++++++
 src/event.c     | 39 +++++++++++++++++++++++++++++++++++++++
 src/worker.c    | 17 ++++++++++++++++-
 3 files changed, 64 insertions(+), 1 deletion(-)

diff --git a/include/event.h b/include/event.h
index 9860cdf..fc81a47 100644
--- a/include/event.h
+++ b/include/event.h
@@ -52,6 +52,15 @@ wss_error_t WSS_poll_set_write(wss_server_t *server, int fd);
  */
 wss_error_t WSS_poll_set_read(wss_server_t *server, int fd);
 
+/**
+ * Function that makes the poll instance report connections that are still
+ * waiting to be accepted once more
+ *
+ * @param 	server	    [wss_server_t *]	"A pointer to a server structure"
+ * @return 			    [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_poll_set_accept(wss_server_t *server);
+
 /**
  * Function removes the client filedescriptor from the poll instance 
  *
diff --git a/src/event.c b/src/event.c
index cb42397..b2940cb 100644
--- a/src/event.c
+++ b/src/event.c
@@ -325,6 +325,20 @@ wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) {
     return WSS_SUCCESS;
 }
 
+/**
+ * Function that makes the poll instance report connections that are still
+ * waiting to be accepted once more
+ *
+ * @param 	server      [wss_server_t *]    "A pointer to a server structure"
+ * @return 			    [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_poll_set_accept(wss_server_t *server) {
+    // The server filedescriptor is level triggered
+    (void) server;
+
+    return WSS_SUCCESS;
+}
+
 /**
  * Function removes the client filedescriptor from the poll instance 
  *
@@ -681,6 +695,17 @@ wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) {
     return WSS_SUCCESS;
 }
 
+/**
+ * Function that makes the poll instance report connections that are still
+ * waiting to be accepted once more
+ *
+ * @param 	server      [wss_server_t *]    "A pointer to a server structure"
+ * @return 			    [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_poll_set_accept(wss_server_t *server) {
+    return WSS_poll_add(server->poll_fd, server->fd, EPOLLIN | EPOLLET | EPOLLRDHUP);
+}
+
 /**
  * Function removes the client filedescriptor from the poll instance 
  *
@@ -995,6 +1020,20 @@ wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) {
     return WSS_SUCCESS;
 }
 
+/**
+ * Function that makes the poll instance report connections that are still
+ * waiting to be accepted once more
+ *
+ * @param 	server      [wss_server_t *]    "A pointer to a server structure"
+ * @return 			    [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_poll_set_accept(wss_server_t *server) {
+    // The server filedescriptor is level triggered
+    (void) server;
+
+    return WSS_SUCCESS;
+}
+
 /**
  * Function removes the client filedescriptor from the poll instance 
  *
diff --git a/src/worker.c b/src/worker.c
index 4ef19d7..bf44b3c 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -469,6 +469,11 @@ void WSS_connect(wss_server_t *server) {
     wss_session_t *session;
     ringbuf_t *ringbuf;
     size_t workers = server->config->pool_workers+1;
+    int err;
+    struct timespec retry;
+
+    retry.tv_sec = 0;
+    retry.tv_nsec = 100000000;
 
     while (1) {
         client_size	= sizeof(client);
@@ -485,7 +490,17 @@ void WSS_connect(wss_server_t *server) {
                 continue;
             }
 
-            WSS_log_fatal("Accept failed: %s", strerror(errno));
+            err = errno;
+
+            WSS_log_fatal("Accept failed: %s", strerror(err));
+
+            // When resources are exhausted connections keep waiting, they are
+            // accepted once resources are available again
+            if ( unlikely(EMFILE == err || ENFILE == err || ENOBUFS == err || ENOMEM == err) ) {
+                nanosleep(&retry, NULL);
+                WSS_poll_set_accept(server);
+            }
+
             break;
         }
 
-- 
2.43.0


From f91020ab76d6bcf0b18d7a3e44b6d57f29552c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 30/62] fix: survive running out of memory when adding a
 session to a hash table

uthash ended the process when it could not allocate a table or its buckets.
---
 .../permessage-deflate/permessage-deflate.c   | 29 +++++++++++++++----
 src/session.c                                 | 15 ++++++++++
 subprotocols/broadcast/broadcast.c            |  4 +++
 subprotocols/broadcast/broadcast.h            |  1 +
 4 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index d83399c..30bcf84 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -15,6 +15,7 @@
 #include <limits.h>
 
 #include "permessage-deflate.h"
+#define HASH_NONFATAL_OOM 1     /* running out of memory must not end the server */
 #include "uthash.h"
 #include "predict.h"
 
@@ -395,6 +396,27 @@ void setAllocators(WSS_malloc_t extmalloc, WSS_realloc_t extrealloc, WSS_free_t
     allocs.free = extfree;
 }
 
+/**
+ * Adds a compressor to the hashtable. The lock must be held by the caller.
+ *
+ * @param 	comp	    [wss_comp_t *]   "The compressor, which is freed upon failure"
+ * @return 	            [bool]           "Whether the compressor was added"
+ */
+static bool add_comp(wss_comp_t *comp) {
+    HASH_ADD_INT(compressors, fd, comp);
+
+    if ( unlikely(NULL == comp->hh.tbl) ) {
+        (void)inflateEnd(&comp->decompressor);
+        (void)deflateEnd(&comp->compressor);
+
+        allocs.free(comp);
+
+        return false;
+    }
+
+    return true;
+}
+
 /**
  * Event called when parameters are available for the pcme i.e. when the
  * connection is opened.
@@ -440,11 +462,10 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
             return;
         }
 
-        HASH_ADD_INT(compressors, fd, comp);
+        *valid = add_comp(comp);
 
         pthread_mutex_unlock(&lock);
 
-        *valid = true;
         return;
     }
     size_t params_length = strlen(param);
@@ -528,9 +549,7 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
         return;
     }
 
-    HASH_ADD_INT(compressors, fd, comp);
-
-    *valid = true;
+    *valid = add_comp(comp);
 
     pthread_mutex_unlock(&lock);
 }
diff --git a/src/session.c b/src/session.c
index cabf434..47fd02d 100644
--- a/src/session.c
+++ b/src/session.c
@@ -1,3 +1,5 @@
+#define HASH_NONFATAL_OOM 1     /* running out of memory must not end the server */
+
 #include <stddef.h>             /* size_t */
 #include <string.h>             /* strerror */
 #include <errno.h> 				/* errno */
@@ -155,6 +157,19 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
 
     HASH_ADD_INT(sessions, fd, session);
 
+    if ( unlikely(NULL == session->hh.tbl) ) {
+        WSS_log_error("Unable to allocate memory for session table");
+        pthread_mutex_destroy(&session->lock);
+        pthread_mutex_destroy(&session->lock_jobs);
+        pthread_mutex_destroy(&session->lock_send);
+        pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_mutexattr_destroy(&session->lock_attr);
+        WSS_free((void **) &session->ip);
+        WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
+    }
+
     pthread_rwlock_unlock(&lock);
 
     return session;
diff --git a/subprotocols/broadcast/broadcast.c b/subprotocols/broadcast/broadcast.c
index bee4612..f4904ec 100644
--- a/subprotocols/broadcast/broadcast.c
+++ b/subprotocols/broadcast/broadcast.c
@@ -110,6 +110,10 @@ void onConnect(int fd, char *ip, int port, char *path, char *cookies) {
 
     HASH_ADD_INT(clients, fd, client);
 
+    if ( unlikely(NULL == client->hh.tbl) ) {
+        allocs.free(client);
+    }
+
     pthread_rwlock_unlock(&lock);
 
     return;
diff --git a/subprotocols/broadcast/broadcast.h b/subprotocols/broadcast/broadcast.h
index 120b2c6..3bfce39 100644
--- a/subprotocols/broadcast/broadcast.h
+++ b/subprotocols/broadcast/broadcast.h
@@ -4,6 +4,7 @@
 #include <stdlib.h>
 
 #include "subprotocol.h"
+#define HASH_NONFATAL_OOM 1     /* running out of memory must not end the server */
 #include "uthash.h"
 
 typedef struct {
-- 
2.43.0


From 818177070f7e8d3fb5f824cd4b4619fd901fbc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 31/62] fix: end a session when a message for it is lost

When memory ran out, frames and messages were dropped silently while the
connection went on.
---
 src/message.c | 23 +++++++++++++++--------
 src/worker.c  |  7 +++++--
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/message.c b/src/message.c
index 2c9f0b3..8ce1e2b 100644
--- a/src/message.c
+++ b/src/message.c
@@ -22,11 +22,7 @@ wss_error_t WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames
     wss_session_t *session = (wss_session_t *)sess;
 
     // The frames could not be created
-    if ( unlikely(NULL == frames || frames_count == 0 || NULL == frames[0]) ) {
-        WSS_log_error("No frames to send");
-
-        return WSS_MEMORY_ERROR;
-    }
+    bool lost = NULL == frames || frames_count == 0 || NULL == frames[0];
 
     // The messages must be written in the same order as the extensions saw them
     if ( unlikely(0 != pthread_mutex_lock(&session->lock_send)) ) {
@@ -46,7 +42,7 @@ wss_error_t WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames
     }
 
     // Use extensions
-    if ( NULL != session->header->ws_extensions ) {
+    if ( NULL != session->header->ws_extensions && likely(! lost) ) {
         for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
             session->header->ws_extensions[j]->ext->outframes(
                     session->fd,
@@ -59,7 +55,13 @@ wss_error_t WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames
         }
     }
 
-    if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
+    if ( unlikely(lost) ) {
+        WSS_log_error("No frames to send");
+
+        m = NULL;
+
+        err = WSS_MEMORY_ERROR;
+    } else if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
         WSS_log_error("Unable to allocate message structure");
 
         err = WSS_MEMORY_ERROR;
@@ -77,7 +79,7 @@ wss_error_t WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames
 
     WSS_log_trace("Putting message into ringbuffer");
 
-    // Without a message the space is skipped when writing
+    // Without a message the session is closed when writing
     session->messages[off] = m;
     ringbuf_produce(session->ringbuf, &w);
 
@@ -96,6 +98,11 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
     wss_frame_t **frames;
     wss_server_t *server = servers.http;
 
+    if ( unlikely(NULL == message && message_length != 0) ) {
+        WSS_log_error("No message to send");
+        return;
+    }
+
     if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
         WSS_log_error("Unable to find session to send message to");
         return;
diff --git a/src/worker.c b/src/worker.c
index bf44b3c..3e54610 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1531,9 +1531,12 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
             session->written = 0;
             message = session->messages[off+i];
 
-            // The message could not be created
+            // The message could not be created, hence the receiver would
+            // misunderstand whatever follows
             if ( unlikely(NULL == message) ) {
-                continue;
+                WSS_log_error("Closing session %d as a message for it was lost", session->fd);
+                session->closing = true;
+                return;
             }
 
             message_length = message->length;
-- 
2.43.0


From 8ad4f95e63d1f95e466a82775cff160221049078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 32/62] fix: keep the values of several
 Sec-WebSocket-Extensions lines apart

The values were joined without a separator, so the last extension of one line and
the first of the next became a single unknown one.
---
 src/header.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/header.c b/src/header.c
index ff7c423..33c4837 100644
--- a/src/header.c
+++ b/src/header.c
@@ -294,11 +294,17 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                         strncasecmp(SEC_WEBSOCKET_EXTENSIONS, line, line_length) == 0 ) {
                 line = header_value(&lineptr);
                 line_length = strlen(line);
-                if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+1)*sizeof(char))) ) {
+                if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+2)*sizeof(char))) ) {
                     WSS_log_error("Unable to allocate space for extensions string");
                     return HttpStatus_InternalServerError;
                 }
 
+                // Several header lines are the same as one line listing all of
+                // the values
+                if (extensions_length > 0) {
+                    exts[extensions_length++] = ',';
+                }
+
                 memcpy(exts+extensions_length, line, line_length);
                 extensions_length += line_length;
             } else if ( line_length == strlen(HOST_STRING) &&
-- 
2.43.0


From c4481a3e2b8580f7d5ec20f6facbd585078828a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 33/62] fix: handle running out of memory while answering a
 handshake

A failed allocation was taken for an invalid Sec-WebSocket-Key, and the BIO chain
of the key computation leaked.
---
 src/header.c |  8 ++++++--
 src/ssl.c    | 13 +++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/header.c b/src/header.c
index 33c4837..3e3dcb8 100644
--- a/src/header.c
+++ b/src/header.c
@@ -569,8 +569,12 @@ enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t * con
         return HttpStatus_UpgradeRequired;
     }
 
-    key = b64_decode_ex(header->ws_key, strlen(header->ws_key), &key_length);
-    if ( unlikely(NULL == key || key_length != SEC_WEBSOCKET_KEY_LENGTH) ) {
+    if ( unlikely(NULL == (key = b64_decode_ex(header->ws_key, strlen(header->ws_key), &key_length))) ) {
+        WSS_log_error("Unable to allocate space for websocket key");
+        return HttpStatus_InternalServerError;
+    }
+
+    if ( unlikely(key_length != SEC_WEBSOCKET_KEY_LENGTH) ) {
         WSS_log_trace("Invalid websocket key");
         WSS_free((void **) &key);
         return HttpStatus_UpgradeRequired;
diff --git a/src/ssl.c b/src/ssl.c
index ce777a9..221204c 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -777,16 +777,25 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
     BUF_MEM *mem_bio_mem_ptr;                       // Pointer to a "memory BIO" structure holding our base64 data.
     b64_bio = BIO_new(BIO_f_base64());              // Initialize our base64 filter BIO.
     mem_bio = BIO_new(BIO_s_mem());                 // Initialize our memory sink BIO.
+    if ( unlikely(NULL == b64_bio || NULL == mem_bio) ) {
+        BIO_free(b64_bio);
+        BIO_free(mem_bio);
+        return 0;
+    }
     b64_bio = BIO_push(b64_bio, mem_bio);           // Link the BIOs by creating a filter-sink BIO chain.
     BIO_set_flags(b64_bio, BIO_FLAGS_BASE64_NO_NL); // No newlines every 64 characters or less.
     BIO_set_close(mem_bio, BIO_CLOSE);              // Permit access to mem_ptr after BIOs are destroyed.
-    BIO_write(b64_bio, sha1Key, SHA_DIGEST_LENGTH); // Records base64 encoded data.
-    BIO_flush(b64_bio);                             // Flush data.  Necessary for b64 encoding, because of pad characters.
+    if ( unlikely(BIO_write(b64_bio, sha1Key, SHA_DIGEST_LENGTH) != SHA_DIGEST_LENGTH // Records base64 encoded data.
+                || BIO_flush(b64_bio) != 1) ) {     // Flush data.  Necessary for b64 encoding, because of pad characters.
+        BIO_free_all(b64_bio);
+        return 0;
+    }
     BIO_get_mem_ptr(mem_bio, &mem_bio_mem_ptr);     // Store address of mem_bio's memory structure.
 #pragma GCC diagnostic pop
 
     acceptKeyLength = mem_bio_mem_ptr->length;
     if ( unlikely(NULL == (*accept_key = WSS_malloc(acceptKeyLength))) ) {
+        BIO_free_all(b64_bio);
         return 0;
     }
     memcpy(*accept_key, (*mem_bio_mem_ptr).data, acceptKeyLength);
-- 
2.43.0


From 17fe72d5ba391a3cf815423e27c9bbfc9455cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 34/62] fix: do not answer an offered window size with a larger
 one

An offer of server_max_window_bits=8, which zlib does not support, was answered
with 9. Such an offer is declined instead.
---
 extensions/permessage-deflate/permessage-deflate.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index 30bcf84..498035c 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -161,11 +161,6 @@ static void parse_param(const char *param, param_t *p) {
             }
             bits = strtol(sep+j, NULL, 10);
 
-            // Is really 8, but zlib does not support value 8 so increase to 9
-            if (bits == SERVER_MIN_WINDOW_BITS) {
-                bits++;
-            }
-
             p->server_max_window_bits = MIN(bits, SERVER_MAX_WINDOW_BITS);
         } else if ( strncmp(EXT_CLIENT_NO_CONTEXT_TAKEOVER, sep, strlen(EXT_CLIENT_NO_CONTEXT_TAKEOVER)) == 0) {
             p->client_no_context_takeover = true;
@@ -515,7 +510,9 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
 
             j++;
             val = strtol(buffer+j, NULL, 10);
-            if ( val < SERVER_MIN_WINDOW_BITS || SERVER_MAX_WINDOW_BITS < val) {
+            // The window must not be larger than what is offered, and zlib
+            // does not support the value 8
+            if ( val <= SERVER_MIN_WINDOW_BITS || SERVER_MAX_WINDOW_BITS < val) {
                 *valid = false;
                 return;
             }
-- 
2.43.0


From 35562f18f0a356600963588f78b088a2b134ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 35/62] fix: free everything when memory runs out while parsing
 the configuration

The parser freed a value list that still held sizes instead of pointers, and
lost the values that were not attached to their parents yet.
---
 src/json.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/json.c b/src/json.c
index 94dfd07..43c58f0 100644
--- a/src/json.c
+++ b/src/json.c
@@ -109,11 +109,8 @@ static int new_value (json_state * state,
 
    if (!state->first_pass)
    {
-      value = *top = *alloc;
-      *alloc = (*alloc)->_reserved.next_alloc;
-
-      if (!*root)
-         *root = value;
+      /* On failure the value stays in the list of values to be freed */
+      value = *alloc;
 
       switch (value->type)
       {
@@ -144,6 +141,7 @@ static int new_value (json_state * state,
                return 0;
             }
 
+            *alloc = value->_reserved.next_alloc;
             value->_reserved.object_mem = (*(char **) &value->u.object.values) + values_size;
 
             value->u.object.length = 0;
@@ -164,6 +162,14 @@ static int new_value (json_state * state,
             break;
       };
 
+      if (*alloc == value)
+         *alloc = value->_reserved.next_alloc;
+
+      *top = value;
+
+      if (!*root)
+         *root = value;
+
       return 1;
    }
 
@@ -226,7 +232,7 @@ json_value * json_parse_ex (json_settings * settings,
 {
    json_char error [json_error_max];
    const json_char * end;
-   json_value * top, * root, * alloc = 0;
+   json_value * top, * root, * next, * alloc = 0;
    json_state state = { 0 };
    long flags;
    long num_digits = 0, num_e = 0;
@@ -946,13 +952,18 @@ e_failed:
 
    while (alloc)
    {
-      top = alloc->_reserved.next_alloc;
+      next = alloc->_reserved.next_alloc;
       state.settings.mem_free (alloc, state.settings.user_data);
-      alloc = top;
+      alloc = next;
    }
 
-   if (!state.first_pass)
-      json_value_free_ex (&state.settings, root);
+   /* The values that are being parsed are not yet reachable from the root */
+   while (!state.first_pass && top)
+   {
+      next = top->parent;
+      json_value_free_ex (&state.settings, top);
+      top = next;
+   }
 
    return 0;
 }
-- 
2.43.0


From 794f417b4be263353a3b416a6ee8c98edb8a47be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 36/62] fix: do not free configuration strings that belong to
 the JSON document

The block holding the hosts with ports was found by a computed index, which
pointed to a string of the document when loading failed before it existed.
---
 include/config.h |  1 +
 src/config.c     | 23 +++++------------------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/include/config.h b/include/config.h
index 73dcaf7..d14485c 100644
--- a/include/config.h
+++ b/include/config.h
@@ -10,6 +10,7 @@ typedef struct {
     char *string;
     size_t length;
     char **hosts;
+    char *hosts_ports;
     char **paths;
     char **queries;
     char **origins;
diff --git a/src/config.c b/src/config.c
index 57969fa..5f487fd 100644
--- a/src/config.c
+++ b/src/config.c
@@ -37,11 +37,11 @@ static wss_error_t config_add_port_to_hosts(wss_config_t *config) {
 
     if ( unlikely(NULL == (config->hosts = (char **)WSS_realloc(
                     (void **)&config->hosts, hosts_length*sizeof(char *), hosts_length*(ports+1)*sizeof(char *)))) ) {
+        config->hosts_length = 0;
         WSS_log_error("Unable to allocate new hosts");
         WSS_config_free(config);
         return WSS_MEMORY_ERROR;
     }
-    config->hosts_length = hosts_length*(ports+1);
 
     for (i = 0; likely(i < hosts_length); i++) {
         size += strlen(config->hosts[i]);
@@ -52,6 +52,8 @@ static wss_error_t config_add_port_to_hosts(wss_config_t *config) {
         WSS_config_free(config);
         return WSS_MEMORY_ERROR;
     }
+    config->hosts_ports = extra;
+    config->hosts_length = hosts_length*(ports+1);
 
     if ( likely(config->port_http > 0) ) {
         for (i = 0; likely(i < hosts_length); i++) {
@@ -113,7 +115,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
 
     config->length = strload(path, &config->string);
     if ( unlikely(NULL == config->string) ) {
-        WSS_log_error("Unable to load JSON file: %s", error);
+        WSS_log_error("Unable to load JSON file: %s", path);
         WSS_config_free(config);
         return WSS_CONFIG_LOAD_ERROR;
     }
@@ -595,23 +597,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
  * @return 			[wss_error_t]       "The error status"
  */
 wss_error_t WSS_config_free(wss_config_t *config) {
-    unsigned int amount = 1;
-
     if ( likely(NULL != config) ) {
-        if ( likely(config->port_http > 0) ) {
-            amount++;
-        }
-
-        if ( likely(config->port_https > 0) ) {
-            amount++;
-        }
-
-        if ( likely(amount > 1) ) {
-            if ( NULL != config->hosts ) {
-                WSS_free((void **)&config->hosts[(config->hosts_length/amount)*(amount-1)]);
-            }
-        }
-
         if ( likely(NULL != config->data) ) {
             json_value_free_ex(&settings, config->data);
             config->data = NULL;
@@ -619,6 +605,7 @@ wss_error_t WSS_config_free(wss_config_t *config) {
 
         WSS_free((void **) &config->string);
         WSS_free((void **) &config->hosts);
+        WSS_free((void **) &config->hosts_ports);
         WSS_free((void **) &config->origins);
         WSS_free((void **) &config->paths);
         WSS_free((void **) &config->queries);
-- 
2.43.0


From 5de79284acfef7ac2384552eb8043f30a29bbe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 37/62] fix: initialise all pointers of the configuration and
 fail without default subprotocols

---
 src/main.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 59effd9..b87b16c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -37,7 +37,7 @@ static inline void wss_help(FILE *stream) {
 }
 
 int main(int argc, char *argv[]) {
-    int err, res;
+    int err, res = EXIT_SUCCESS;
     wss_config_t config;
     FILE *file;
     pthread_mutex_t log_lock;
@@ -56,12 +56,15 @@ int main(int argc, char *argv[]) {
     // Default values
     config.subprotocols         = NULL;
     config.subprotocols_length  = 0;
+    config.subprotocols_config  = NULL;
     config.extensions           = NULL;
     config.extensions_length    = 0;
+    config.extensions_config    = NULL;
     config.favicon              = NULL;
     config.origins              = NULL;
     config.origins_length       = 0;
     config.hosts                = NULL;
+    config.hosts_ports          = NULL;
     config.hosts_length         = 0;
     config.paths                = NULL;
     config.paths_length         = 0;
@@ -200,9 +203,16 @@ int main(int argc, char *argv[]) {
                 config.subprotocols_length = 2;
             }
         }
+
+        if ( unlikely(config.subprotocols_length == 0) ) {
+            WSS_log_fatal("Unable to allocate the default subprotocols");
+            res = EXIT_FAILURE;
+        }
     }
 
-    res = WSS_server_start(&config);
+    if ( likely(res == EXIT_SUCCESS) ) {
+        res = WSS_server_start(&config);
+    }
 
     if ( unlikely((err = pthread_mutex_destroy(&log_lock)) != 0) ) {
         WSS_log_error("Unable to initialize log lock: %s", strerror(err));
-- 
2.43.0


From 984d6dd32160650b45f9438f2bfb0d5dac8b26f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 38/62] fix: do not exit or go on without a plugin when memory
 runs out while loading it

---
 include/extensions.h   |  4 ++--
 include/subprotocols.h |  4 ++--
 src/extensions.c       | 23 +++++++++++++++++------
 src/subprotocols.c     | 23 +++++++++++++++++------
 4 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/include/extensions.h b/include/extensions.h
index f5c0839..f029df5 100644
--- a/include/extensions.h
+++ b/include/extensions.h
@@ -52,9 +52,9 @@ typedef struct {
  * extensions/permessage-deflate/permessage-deflate.so 
  *
  * @param 	config	[wss_config_t *] 	"The configuration of the server"
- * @return 	      	[void]
+ * @return 	      	[wss_error_t] 	"The error status"
  */
-void WSS_load_extensions(wss_config_t *config);
+wss_error_t WSS_load_extensions(wss_config_t *config);
 
 /**
  * Function that looks for a extension implementation of the name given.
diff --git a/include/subprotocols.h b/include/subprotocols.h
index 9446d2c..d3e988c 100644
--- a/include/subprotocols.h
+++ b/include/subprotocols.h
@@ -43,9 +43,9 @@ typedef struct {
  * subprotocols/echo/echo.so 
  *
  * @param 	config	[wss_config_t *config] 	"The configuration of the server"
- * @return 	      	[void]
+ * @return 	      	[wss_error_t] 	"The error status"
  */
-void WSS_load_subprotocols(wss_config_t *config);
+wss_error_t WSS_load_subprotocols(wss_config_t *config);
 
 /**
  * Function that looks for a subprotocol implementation of the name given.
diff --git a/src/extensions.c b/src/extensions.c
index a93bc38..2312dba 100644
--- a/src/extensions.c
+++ b/src/extensions.c
@@ -1,3 +1,5 @@
+#define HASH_NONFATAL_OOM 1     /* running out of memory must not end the server */
+
 #include <dlfcn.h>
 #include <stdio.h>
 #include <libgen.h>
@@ -22,9 +24,9 @@ wss_extension_t *extensions = NULL;
  * extensions/permessage-deflate/permessage-deflate.so 
  *
  * @param 	config	[config_t *] 	"The configuration of the server"
- * @return 	      	[void]
+ * @return 	      	[wss_error_t] 	"The error status"
  */
-void WSS_load_extensions(wss_config_t *config)
+wss_error_t WSS_load_extensions(wss_config_t *config)
 {
     size_t i, j;
     char *name;
@@ -34,7 +36,7 @@ void WSS_load_extensions(wss_config_t *config)
     int name_length;
 
     if ( unlikely(NULL == config) ) {
-        return;
+        return WSS_SUCCESS;
     }
 
     WSS_log_trace("Loading extensions");
@@ -52,7 +54,7 @@ void WSS_load_extensions(wss_config_t *config)
         if ( unlikely(NULL == (proto = WSS_malloc(sizeof(wss_extension_t)))) ) {
             WSS_log_error("Unable to allocate extension structure");
             dlclose(handle);
-            return;
+            return WSS_MEMORY_ERROR;
         }
         proto->handle = handle;
 
@@ -128,7 +130,7 @@ void WSS_load_extensions(wss_config_t *config)
             WSS_log_error("Unable to allocate name");
             dlclose(proto->handle);
             WSS_free((void **) &proto);
-            return;
+            return WSS_MEMORY_ERROR;
         }
 
         // Call Cython init if available
@@ -137,7 +139,7 @@ void WSS_load_extensions(wss_config_t *config)
             dlclose(proto->handle);
             WSS_free((void **) &proto->name);
             WSS_free((void **) &proto);
-            return;
+            return WSS_MEMORY_ERROR;
         }
 
         sprintf(pyname, "PyInit_%.*s", (int)name_length, name);
@@ -149,6 +151,13 @@ void WSS_load_extensions(wss_config_t *config)
         memcpy(proto->name, name, name_length);
 
         HASH_ADD_KEYPTR(hh, extensions, proto->name, name_length, proto);
+        if ( unlikely(NULL == proto->hh.tbl) ) {
+            WSS_log_error("Unable to add extension to the hash table");
+            dlclose(proto->handle);
+            WSS_free((void **) &proto->name);
+            WSS_free((void **) &proto);
+            return WSS_MEMORY_ERROR;
+        }
 
         WSS_log_trace("Setting custom allocators for extension %s", proto->name);
 
@@ -160,6 +169,8 @@ void WSS_load_extensions(wss_config_t *config)
 
         WSS_log_info("Successfully loaded %s extension", proto->name);
     }
+
+    return WSS_SUCCESS;
 }
 
 /**
diff --git a/src/subprotocols.c b/src/subprotocols.c
index bef6a00..0bd2ecc 100644
--- a/src/subprotocols.c
+++ b/src/subprotocols.c
@@ -1,3 +1,5 @@
+#define HASH_NONFATAL_OOM 1     /* running out of memory must not end the server */
+
 #include <dlfcn.h>
 #include <stdio.h>
 #include <libgen.h>
@@ -26,9 +28,9 @@ wss_subprotocol_t *subprotocols = NULL;
  * subprotocols/broadcast/broadcast.so 
  *
  * @param 	config	[config_t *] 	"The configuration of the server"
- * @return 	      	[void]
+ * @return 	      	[wss_error_t] 	"The error status"
  */
-void WSS_load_subprotocols(wss_config_t *config)
+wss_error_t WSS_load_subprotocols(wss_config_t *config)
 {
     size_t i, j;
     char *name;
@@ -38,7 +40,7 @@ void WSS_load_subprotocols(wss_config_t *config)
     int name_length;
 
     if ( unlikely(NULL == config) ) {
-        return;
+        return WSS_SUCCESS;
     }
 
     WSS_log_trace("Loading %d subprotocols", config->subprotocols_length);
@@ -56,7 +58,7 @@ void WSS_load_subprotocols(wss_config_t *config)
         if ( unlikely(NULL == (proto = WSS_malloc(sizeof(wss_subprotocol_t)))) ) {
             WSS_log_error("Unable to allocate subprotocol structure");
             dlclose(handle);
-            return;
+            return WSS_MEMORY_ERROR;
         }
         proto->handle = handle;
 
@@ -118,7 +120,7 @@ void WSS_load_subprotocols(wss_config_t *config)
             WSS_log_error("Unable to allocate name");
             dlclose(proto->handle);
             WSS_free((void **) &proto);
-            return;
+            return WSS_MEMORY_ERROR;
         }
 
         // Call Cython init if available
@@ -127,7 +129,7 @@ void WSS_load_subprotocols(wss_config_t *config)
             dlclose(proto->handle);
             WSS_free((void **) &proto->name);
             WSS_free((void **) &proto);
-            return;
+            return WSS_MEMORY_ERROR;
         }
 
         sprintf(pyname, "PyInit_%.*s", (int)name_length, name);
@@ -139,6 +141,13 @@ void WSS_load_subprotocols(wss_config_t *config)
         memcpy(proto->name, name, name_length);
 
         HASH_ADD_KEYPTR(hh, subprotocols, proto->name, name_length, proto);
+        if ( unlikely(NULL == proto->hh.tbl) ) {
+            WSS_log_error("Unable to add subprotocol to the hash table");
+            dlclose(proto->handle);
+            WSS_free((void **) &proto->name);
+            WSS_free((void **) &proto);
+            return WSS_MEMORY_ERROR;
+        }
 
         WSS_log_trace("Setting custom allocators for subprotocol %s", proto->name);
 
@@ -152,6 +161,8 @@ void WSS_load_subprotocols(wss_config_t *config)
 
         WSS_log_info("Successfully loaded %s extension", proto->name);
     }
+
+    return WSS_SUCCESS;
 }
 
 /**
-- 
2.43.0


From 6e84eff2b60c95bb3f471740f7319bab94d3203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 39/62] fix: release everything when the server cannot be
 started completely

Descriptors, threads, locks and memory were left behind on most of the error
paths, descriptor 0 was closed if the HTTPS instance failed early, a restriction
of the request uri was dropped when memory ran out, and a server thread that was
already running went on using freed memory.
---
 include/server.h |   1 +
 src/http.c       |  59 ++++++++++-------
 src/server.c     | 168 +++++++++++++++++++++++++++++++++--------------
 src/socket.c     |   2 -
 4 files changed, 154 insertions(+), 76 deletions(-)

diff --git a/include/server.h b/include/server.h
index 0e8e586..61cbc01 100644
--- a/include/server.h
+++ b/include/server.h
@@ -46,6 +46,7 @@ typedef struct {
     void *events;
     struct sockaddr_in6 info;
     pthread_t thread_id;
+    bool running;
     pthread_t cleanup_thread_id;
     pthread_mutex_t lock;
     int rearm_pipefd[2];
diff --git a/src/http.c b/src/http.c
index b95a1e5..c90d5d9 100644
--- a/src/http.c
+++ b/src/http.c
@@ -27,19 +27,21 @@
  * @param   config    [wss_config_t *]  "The configuration of the server"
  * @param   ssl       [bool]            "Whether server uses SSL"
  * @param   port      [int]             "The server port"
- * @return            [char *]          "The request uri regex pattern"
+ * @param   uri       [char **]         "Set to the request uri regex pattern, or NULL if there are no restrictions"
+ * @return            [wss_error_t]     "The error status"
  */
-static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
+static wss_error_t generate_request_uri(wss_config_t * config, bool ssl, int port, char **uri) {
     int i, j, k;
     size_t iw = 0, jw = 0, kw = 0;
     size_t request_uri_length = 0;
     size_t sum_host_length = 0; 
     size_t sum_path_length = 0; 
     size_t sum_query_length = 0; 
+    wss_error_t err = WSS_MEMORY_ERROR;
     char *request_uri;
-    char *host = "";
-    char *path = "";
-    char *query = "";
+    char *host = NULL;
+    char *path = NULL;
+    char *query = NULL;
     char *s = "";
 
     for (i = 0; i < config->hosts_length; i++) {
@@ -57,8 +59,10 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     }
     sum_query_length += MAX(config->queries_length-1, 0);
 
+    *uri = NULL;
+
     if (sum_host_length+sum_path_length+sum_query_length == 0) {
-        return NULL;
+        return WSS_SUCCESS;
     }
 
     request_uri_length += strlen(REQUEST_URI)*sizeof(char)-12*sizeof(char);
@@ -68,22 +72,25 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     request_uri_length += sum_path_length*sizeof(char);
     request_uri_length += sum_query_length*sizeof(char);
     request_uri_length += sum_query_length*sizeof(char);
-    request_uri = (char *) WSS_malloc(request_uri_length+1*sizeof(char));
+
+    if ( unlikely(NULL == (request_uri = (char *) WSS_malloc(request_uri_length+1*sizeof(char)))) ) {
+        return WSS_MEMORY_ERROR;
+    }
 
     if (ssl) {
         s = "s";
     }
 
     if ( unlikely(sum_host_length > 0 && NULL == (host = WSS_malloc(sum_host_length+1))) ) {
-        return NULL;
+        goto done;
     }
 
     if ( unlikely(sum_path_length > 0 && NULL == (path = WSS_malloc(sum_path_length+1))) ) {
-        return NULL;
+        goto done;
     }
 
     if ( unlikely(sum_query_length > 0 && NULL == (query = WSS_malloc(sum_query_length+1))) ) {
-        return NULL;
+        goto done;
     }
 
     for (i = 0; likely(i < config->hosts_length); i++) {
@@ -116,21 +123,20 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
         kw += strlen(config->queries[k]);
     }
 
-    sprintf(request_uri, REQUEST_URI, s, host, port, path, query, query);
+    sprintf(request_uri, REQUEST_URI, s, NULL != host ? host : "", port,
+            NULL != path ? path : "", NULL != query ? query : "", NULL != query ? query : "");
 
-    if ( likely(strlen(host) > 0) ) {
-        WSS_free((void **) &host);
-    }
+    *uri = request_uri;
+    request_uri = NULL;
+    err = WSS_SUCCESS;
 
-    if ( likely(strlen(path) > 0) ) {
-        WSS_free((void **) &path);
-    }
+done:
+    WSS_free((void **) &host);
+    WSS_free((void **) &path);
+    WSS_free((void **) &query);
+    WSS_free((void **) &request_uri);
 
-    if ( likely(strlen(query) > 0) ) {
-        WSS_free((void **) &query);
-    }
-
-    return request_uri;
+    return err;
 }
 
 /**
@@ -149,13 +155,19 @@ wss_error_t WSS_http_regex_init(wss_server_t *server) {
         ssl = true;
     }
 
-    request_uri = generate_request_uri(server->config, ssl, server->port);
+    if ( unlikely(WSS_SUCCESS != (err = generate_request_uri(server->config, ssl, server->port, &request_uri))) ) {
+        return err;
+    }
+
     if ( likely(request_uri != NULL) ) {
         if ( NULL == (server->re = WSS_malloc(sizeof(regex_t)))) {
+            WSS_free((void **) &request_uri);
             return WSS_MEMORY_ERROR;
         }
 
         if ( unlikely((err = regcomp(server->re, request_uri, REG_EXTENDED|REG_NOSUB)) != 0) ) {
+            WSS_free((void **) &server->re);
+            WSS_free((void **) &request_uri);
             return WSS_REGEX_ERROR;
         }
 
@@ -240,6 +252,7 @@ wss_error_t WSS_http_server(wss_server_t *server) {
         WSS_log_error("Unable to create server thread", strerror(errno));
         return WSS_THREAD_CREATE_ERROR;
     }
+    server->running = true;
 
     return WSS_SUCCESS;
 }
diff --git a/src/server.c b/src/server.c
index a3031bc..5f769b4 100644
--- a/src/server.c
+++ b/src/server.c
@@ -252,6 +252,28 @@ void *WSS_server_run(void *arg) {
     pthread_exit( ((void *) ((uintptr_t)WSS_SUCCESS)) );
 }
 
+/**
+ * Wakes up all threads of the servers, such that they see that the state of
+ * the server has changed.
+ *
+ * @return 	        [void]
+ */
+static void WSS_server_halt() {
+    int n;
+
+    if (close_pipefd[0] != -1 && close_pipefd[1] != -1) {
+        do {
+            errno = 0;
+            n = write(close_pipefd[1], "HALT", 5);
+            if ( unlikely(n < 0) ) {
+                if ( unlikely(errno != EINTR) ) {
+                    WSS_log_fatal("Unable to write halting message through pipe");
+                }
+            }
+        } while ( unlikely(errno == EINTR) );
+    }
+}
+
 /**
  * Handler to call when some specific interrupts are happening. This function
  * shuts down the server in a safe way or ignore certain interrupts.
@@ -260,7 +282,6 @@ void *WSS_server_run(void *arg) {
  * @return 	        [void]
  */
 static void WSS_server_interrupt(int sig) {
-    int n;
     switch (sig) {
         case SIGINT:
         case SIGSEGV:
@@ -269,17 +290,7 @@ static void WSS_server_interrupt(int sig) {
             if (state.state != HALTING && state.state != HALT_ERROR) {
                 WSS_log_trace("Server is shutting down gracefully");
                 WSS_server_set_state(HALTING);
-                if (close_pipefd[0] != -1 && close_pipefd[1] != -1) {
-                    do {
-                        errno = 0;
-                        n = write(close_pipefd[1], "HALT", 5);
-                        if ( unlikely(n < 0) ) {
-                            if ( unlikely(errno != EINTR) ) {
-                                WSS_log_fatal("Unable to write halting message through pipe");
-                            }
-                        }
-                    } while ( unlikely(errno == EINTR) );
-                }
+                WSS_server_halt();
             }
             break;
         case SIGPIPE:
@@ -315,6 +326,61 @@ static int WSS_server_free(wss_server_t *server) {
     return result;
 }
 
+/**
+ * Initializes a server instance, such that it can be freed at any time.
+ *
+ * @param   server  [wss_server_t *] "The server instance"
+ * @return 	        [int]            "0 if successful, otherwise the error"
+ */
+static int WSS_server_init(wss_server_t *server) {
+    int err;
+
+    server->fd = -1;
+    server->poll_fd = -1;
+    server->rearm_pipefd[0] = -1;
+    server->rearm_pipefd[1] = -1;
+
+    if ( unlikely(0 != (err = pthread_mutex_init(&server->lock, NULL))) ) {
+        WSS_log_fatal("Failed initializing server lock: %s", strerror(err));
+    }
+
+    return err;
+}
+
+/**
+ * Stops and frees the instances and everything else the server uses, when the
+ * server could not be started completely.
+ *
+ * @param   http    [wss_server_t *] "The http server instance, which is running"
+ * @param   https   [wss_server_t *] "The https server instance, or NULL"
+ * @return 	        [int]            "EXIT_FAILURE"
+ */
+static int WSS_server_abort(wss_server_t *http, wss_server_t *https) {
+    WSS_server_set_state(HALT_ERROR);
+    WSS_server_halt();
+
+    pthread_join(http->thread_id, NULL);
+    if (NULL != https && https->running) {
+        pthread_join(https->thread_id, NULL);
+    }
+
+    if (NULL != https) {
+        WSS_poll_close(https);
+        WSS_server_free(https);
+    }
+
+    WSS_poll_close(http);
+    WSS_server_free(http);
+
+    WSS_session_delete_all();
+    WSS_session_destroy_lock();
+    WSS_destroy_subprotocols();
+    WSS_destroy_extensions();
+    pthread_mutex_destroy(&state.lock);
+
+    return EXIT_FAILURE;
+}
+
 /**
  * Starts the websocket server.
  *
@@ -339,7 +405,9 @@ int WSS_server_start(wss_config_t *config) {
     }
 
     if ( getrlimit(RLIMIT_NOFILE, &limits) < 0 ) {
-        WSS_log_fatal("Failed to get kernel file descriptor limits: %s", strerror(err));
+        WSS_log_fatal("Failed to get kernel file descriptor limits: %s", strerror(errno));
+
+        pthread_mutex_destroy(&state.lock);
 
         return EXIT_FAILURE;
     }
@@ -348,16 +416,33 @@ int WSS_server_start(wss_config_t *config) {
     limits.rlim_cur = limits.rlim_max;
 
     if ( setrlimit(RLIMIT_NOFILE, &limits) < 0 ) {
-        WSS_log_fatal("Failed to set kernel file descriptor limits: %s", strerror(err));
+        WSS_log_fatal("Failed to set kernel file descriptor limits: %s", strerror(errno));
+
+        pthread_mutex_destroy(&state.lock);
 
         return EXIT_FAILURE;
     }
 
     // Load extensions available
-    WSS_load_extensions(config);
+    if ( unlikely(WSS_SUCCESS != WSS_load_extensions(config)) ) {
+        WSS_log_fatal("Unable to load extensions");
+
+        WSS_destroy_extensions();
+        pthread_mutex_destroy(&state.lock);
+
+        return EXIT_FAILURE;
+    }
 
     // Load subprotocols available
-    WSS_load_subprotocols(config);
+    if ( unlikely(WSS_SUCCESS != WSS_load_subprotocols(config)) ) {
+        WSS_log_fatal("Unable to load subprotocols");
+
+        WSS_destroy_subprotocols();
+        WSS_destroy_extensions();
+        pthread_mutex_destroy(&state.lock);
+
+        return EXIT_FAILURE;
+    }
 
     // Setting starting state
     WSS_log_trace("Starting server");
@@ -463,12 +548,14 @@ int WSS_server_start(wss_config_t *config) {
     servers.http = http;
     servers.https = NULL;
 
-    if ( unlikely(0 != (err = pthread_mutex_init(&http->lock, NULL))) ) {
-        WSS_server_free(http);
+    if ( unlikely(0 != WSS_server_init(http)) ) {
+        WSS_free((void **) &http);
         WSS_session_destroy_lock();
         WSS_destroy_subprotocols();
         WSS_destroy_extensions();
         pthread_mutex_destroy(&state.lock);
+
+        return EXIT_FAILURE;
     }
 
     WSS_log_trace("Creating HTTP Instance");
@@ -478,6 +565,7 @@ int WSS_server_start(wss_config_t *config) {
     if ( unlikely(WSS_SUCCESS != WSS_http_server(http)) ) {
         WSS_log_fatal("Unable to initialize http server");
 
+        WSS_poll_close(http);
         WSS_server_free(http);
         WSS_session_destroy_lock();
         WSS_destroy_subprotocols();
@@ -491,15 +579,15 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("Allocating memory for HTTPS instance");
 
         if ( unlikely(NULL == (https = (wss_server_t *) WSS_malloc(sizeof(wss_server_t)))) ) {
-            WSS_server_free(http);
-            WSS_session_destroy_lock();
-            WSS_destroy_subprotocols();
-            WSS_destroy_extensions();
-            pthread_mutex_destroy(&state.lock);
-
             WSS_log_fatal("Unable to allocate https server structure");
 
-            return EXIT_FAILURE;
+            return WSS_server_abort(http, NULL);
+        }
+
+        if ( unlikely(0 != WSS_server_init(https)) ) {
+            WSS_free((void **) &https);
+
+            return WSS_server_abort(http, NULL);
         }
 
         servers.https = https;
@@ -509,46 +597,24 @@ int WSS_server_start(wss_config_t *config) {
         https->config = config;
         https->port   = config->port_https;
         if ( unlikely(WSS_SUCCESS != WSS_http_ssl(https)) ) {
-            WSS_server_free(https);
-            WSS_server_free(http);
-            WSS_session_destroy_lock();
-            WSS_destroy_subprotocols();
-            WSS_destroy_extensions();
-            pthread_mutex_destroy(&state.lock);
-
             WSS_log_fatal("Unable to establish ssl context");
 
-            return EXIT_FAILURE;
+            return WSS_server_abort(http, https);
         }
 
         if ( unlikely(WSS_SUCCESS != WSS_http_server(https)) ) {
-            WSS_server_free(https);
-            WSS_server_free(http);
-            WSS_session_destroy_lock();
-            WSS_destroy_subprotocols();
-            WSS_destroy_extensions();
-            pthread_mutex_destroy(&state.lock);
-
             WSS_log_fatal("Unable to initialize https server");
 
-            return EXIT_FAILURE;
+            return WSS_server_abort(http, https);
         }
     }
 
     WSS_log_trace("Creating HTTP cleanup thread");
     
     if ( unlikely(pthread_create(&cleanup_thread_id, NULL, WSS_cleanup, NULL) != 0) ) {
-        if (ssl) {
-            WSS_server_free(https);
-        }
-        WSS_server_free(http);
-        WSS_session_destroy_lock();
-        WSS_destroy_subprotocols();
-        WSS_destroy_extensions();
-        pthread_mutex_destroy(&state.lock);
-
         WSS_log_fatal("Unable to create cleanup thread");
-        return EXIT_FAILURE;
+
+        return WSS_server_abort(http, https);
     }
 
     WSS_log_trace("Joining server threads");
diff --git a/src/socket.c b/src/socket.c
index 4504164..9961412 100644
--- a/src/socket.c
+++ b/src/socket.c
@@ -64,7 +64,6 @@ wss_error_t WSS_socket_bind(wss_server_t *server) {
 
     if ( unlikely(server->port < 0 || server->port > 65535) ) {
         WSS_log_fatal("Server port must be within range [0, 65535]");
-        server->fd = -1;
         return WSS_SOCKET_BIND_ERROR;
     }
 
@@ -82,7 +81,6 @@ wss_error_t WSS_socket_bind(wss_server_t *server) {
     if ( unlikely((bind(server->fd, (struct sockaddr *) &server->info,
                     sizeof(server->info))) < 0) ) {
         WSS_log_fatal("Unable to bind socket to port: %s", strerror(errno));
-        server->fd = -1;
         return WSS_SOCKET_BIND_ERROR;
     }
     return WSS_SUCCESS;
-- 
2.43.0


From 0f9d96f76011c4e131394f85b8b93c571b8bc06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 40/62] fix: end the session when the client closes the TLS
 connection

---
 src/ssl.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ssl.c b/src/ssl.c
index 221204c..2a5f19a 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -374,8 +374,17 @@ int WSS_ssl_read(wss_server_t *server, wss_session_t *session, char *buffer) {
         n = -2;
     } else
         
+    // The client has closed the connection, nothing will ever be received again
+    if ( unlikely(err == SSL_ERROR_ZERO_RETURN) ) {
+        WSS_log_trace("Client has closed the TLS connection");
+
+        session->closing = true;
+
+        n = 0;
+    } else
+
     // Some error has occured.
-    if ( unlikely(err != SSL_ERROR_NONE && err != SSL_ERROR_ZERO_RETURN) ) {
+    if ( unlikely(err != SSL_ERROR_NONE) ) {
         char msg[1024];
 #if defined(USE_OPENSSL)
         while ( (err = ERR_get_error()) != 0 ) {
-- 
2.43.0


From d538e3a1f70504cd3943a65255d2cd09bc68f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 41/62] fix: do not free an uninitialised pointer when the
 accept key cannot be computed

---
 src/worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worker.c b/src/worker.c
index 3e54610..bdad1e7 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -64,7 +64,7 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
     int magic_length = strlen(MAGIC_WEBSOCKET_KEY);
     int key_length = strlen(header->ws_key) + magic_length;
     char key[key_length];
-    char *acceptKey;
+    char *acceptKey = NULL;
     size_t acceptKeyLength;
 
     if ( likely(NULL != header->version) ) {
-- 
2.43.0


From 99ab8304d08d9c880a00b4f4a2770821d7049b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 42/62] fix: decline permessage-deflate offers with invalid or
 repeated parameters

---
 .../permessage-deflate/permessage-deflate.c   | 66 ++++++++++---------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index 498035c..ff37407 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -423,12 +423,18 @@ static bool add_comp(wss_comp_t *comp) {
  * @return 	            [void]
  */
 void onOpen(int fd, char *param, char **accepted, bool *valid) {
-    int err, j;
+    int err;
     long int val;
     size_t i;
     regex_t re;
-    size_t nmatch = 7;
-    regmatch_t matches[nmatch];
+    char *sep, *sepptr, *value;
+    bool seen[4];
+    const char *names[4] = {
+        EXT_CLIENT_MAX_WINDOW_BITS,
+        EXT_SERVER_MAX_WINDOW_BITS,
+        EXT_CLIENT_NO_CONTEXT_TAKEOVER,
+        EXT_SERVER_NO_CONTEXT_TAKEOVER
+    };
     wss_comp_t *comp;
     const char *reg_str = "^(\\s*((server_no_context_takeover)|(client_no_context_takeover)|(server_max_window_bits\\s*=\\s*[0-9]+)|(client_max_window_bits(\\s*=\\s*[0-9]+)?))*\\s*;?\\s*)*$";
 
@@ -466,7 +472,7 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
     size_t params_length = strlen(param);
     char buffer[params_length+1];
 
-    if ( unlikely((err = regcomp(&re, reg_str, REG_EXTENDED)) != 0) ) {
+    if ( unlikely((err = regcomp(&re, reg_str, REG_EXTENDED|REG_NOSUB)) != 0) ) {
         *valid = false;
         return;
     } 
@@ -474,42 +480,40 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
     memset(buffer, '\0', params_length+1);
     memcpy(buffer, param, params_length);
 
-    err = regexec(&re, buffer, nmatch, matches, 0);
+    err = regexec(&re, buffer, 0, NULL, 0);
     regfree(&re);
     if ( unlikely(err != 0) ) {
         *valid = false;
         return;
     }
 
-    for (i = 3; likely(i < nmatch-1); i++) {
-        if (matches[i].rm_so == -1) {
-            continue;
-        }
-
-        buffer[matches[i].rm_eo] = '\0';
-
-        if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0 ) {
-            j = matches[i].rm_so+strlen(EXT_CLIENT_MAX_WINDOW_BITS);
-            while (buffer[j] != '=' && buffer[j] != '\0') {
-                j++;
+    // Every parameter must have a valid value and be given at most once
+    memset(seen, false, sizeof(seen));
+    sep = trim(strtok_r(buffer, ";", &sepptr));
+    while ( likely(NULL != sep) ) {
+        for (i = 0; likely(i < 4); i++) {
+            if ( strncmp(names[i], sep, strlen(names[i])) != 0 ) {
+                continue;
             }
 
-            if (buffer[j] != '\0') {
-                j++;
-                val = strtol(buffer+j, NULL, 10);
-                if ( val < CLIENT_MIN_WINDOW_BITS || CLIENT_MAX_WINDOW_BITS < val) {
-                    *valid = false;
-                    return;
-                }
-            }
-        } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0 ) {
-            j = matches[i].rm_so+strlen(EXT_SERVER_MAX_WINDOW_BITS);
-            while (buffer[j] != '=') {
-                j++;
+            if ( unlikely(seen[i]) ) {
+                *valid = false;
+                return;
             }
+            seen[i] = true;
+        }
 
-            j++;
-            val = strtol(buffer+j, NULL, 10);
+        val = CLIENT_MAX_WINDOW_BITS;
+        if ( NULL != (value = strchr(sep, '=')) ) {
+            val = strtol(value+1, NULL, 10);
+        }
+
+        if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, sep, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0 ) {
+            if ( val < CLIENT_MIN_WINDOW_BITS || CLIENT_MAX_WINDOW_BITS < val) {
+                *valid = false;
+                return;
+            }
+        } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, sep, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0 ) {
             // The window must not be larger than what is offered, and zlib
             // does not support the value 8
             if ( val <= SERVER_MIN_WINDOW_BITS || SERVER_MAX_WINDOW_BITS < val) {
@@ -517,6 +521,8 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
                 return;
             }
         }
+
+        sep = trim(strtok_r(NULL, ";", &sepptr));
     }
 
     if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
-- 
2.43.0


From 9ebd9f6ef159c10c91b9e812ceac366dde66ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 43/62] fix: close the pipes only when no worker or signal
 handler can use them

---
 src/event.c  | 10 ----------
 src/server.c | 39 ++++++++++++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/event.c b/src/event.c
index b2940cb..0f89a5e 100644
--- a/src/event.c
+++ b/src/event.c
@@ -1231,15 +1231,5 @@ wss_error_t WSS_poll_close(wss_server_t *server) {
         server->rearm_pipefd[1] = -1;
     }
 
-    if ( likely(close_pipefd[0] != -1) ) {
-        close(close_pipefd[0]);
-        close_pipefd[0] = -1;
-    }
-
-    if ( likely(close_pipefd[1] != -1) ) {
-        close(close_pipefd[1]);
-        close_pipefd[1] = -1;
-    }
-
     return WSS_SUCCESS;
 }
diff --git a/src/server.c b/src/server.c
index 5f769b4..98f5bff 100644
--- a/src/server.c
+++ b/src/server.c
@@ -274,6 +274,24 @@ static void WSS_server_halt() {
     }
 }
 
+/**
+ * Closes the pipe that wakes up the threads of the servers. No other thread
+ * that could be interrupted by a signal may be left when it is closed.
+ *
+ * @return 	        [void]
+ */
+static void WSS_server_halt_close() {
+    int i, fd;
+
+    for (i = 0; i < 2; i++) {
+        fd = close_pipefd[i];
+        close_pipefd[i] = -1;
+        if ( likely(fd != -1) ) {
+            close(fd);
+        }
+    }
+}
+
 /**
  * Handler to call when some specific interrupts are happening. This function
  * shuts down the server in a safe way or ignore certain interrupts.
@@ -312,6 +330,11 @@ static int WSS_server_free(wss_server_t *server) {
         result = EXIT_FAILURE;
     }
 
+    // The workers use the pipe of the server until the threadpool is gone
+    if ( unlikely(WSS_SUCCESS != WSS_poll_close(server)) ) {
+        result = EXIT_FAILURE;
+    }
+
     if ( unlikely(WSS_SUCCESS != pthread_mutex_destroy(&server->lock)) ) {
         result = EXIT_FAILURE;
     }
@@ -365,12 +388,11 @@ static int WSS_server_abort(wss_server_t *http, wss_server_t *https) {
     }
 
     if (NULL != https) {
-        WSS_poll_close(https);
         WSS_server_free(https);
     }
 
-    WSS_poll_close(http);
     WSS_server_free(http);
+    WSS_server_halt_close();
 
     WSS_session_delete_all();
     WSS_session_destroy_lock();
@@ -565,8 +587,9 @@ int WSS_server_start(wss_config_t *config) {
     if ( unlikely(WSS_SUCCESS != WSS_http_server(http)) ) {
         WSS_log_fatal("Unable to initialize http server");
 
-        WSS_poll_close(http);
+        WSS_server_set_state(HALT_ERROR);
         WSS_server_free(http);
+        WSS_server_halt_close();
         WSS_session_destroy_lock();
         WSS_destroy_subprotocols();
         WSS_destroy_extensions();
@@ -648,10 +671,6 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("HTTPS server thread has shutdown");
     }
 
-    if ( unlikely(WSS_poll_close(http) != WSS_SUCCESS) ) {
-        WSS_server_set_state(HALT_ERROR);
-    }
-
     if ( unlikely(WSS_server_free(http) != 0) ) {
         WSS_server_set_state(HALT_ERROR);
     }
@@ -659,10 +678,6 @@ int WSS_server_start(wss_config_t *config) {
     WSS_log_trace("Freed memory associated with HTTP server instance");
 
     if (ssl) {
-        if ( unlikely(WSS_poll_close(https) != WSS_SUCCESS) ) {
-            WSS_server_set_state(HALT_ERROR);
-        }
-
         if ( unlikely(WSS_server_free(https) != 0) ) {
             WSS_server_set_state(HALT_ERROR);
         }
@@ -670,6 +685,8 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("Freed memory associated with HTTPS server instance");
     }
 
+    WSS_server_halt_close();
+
     if ( unlikely(WSS_SUCCESS != WSS_session_delete_all()) ) {
         WSS_server_set_state(HALT_ERROR);
     }
-- 
2.43.0


From 476aab19c0ee75997ffdc29f841607f6a07ac6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 44/62] fix: report the failure to encode the accept key
 without OpenSSL instead of using a null pointer

---
 src/b64.c | 4 ++++
 src/ssl.c | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/b64.c b/src/b64.c
index e79db74..636a018 100644
--- a/src/b64.c
+++ b/src/b64.c
@@ -39,6 +39,7 @@ b64_encode (const unsigned char *src, size_t len) {
             // part by index from the base 64 index table
             // into `enc' unsigned char array
             enc = (char *) b64_realloc(enc, size + 4);
+            if (NULL == enc) { return NULL; }
             for (i = 0; i < 4; ++i) {
                 enc[size++] = b64_table[buf[i]];
             }
@@ -64,6 +65,7 @@ b64_encode (const unsigned char *src, size_t len) {
         // perform same write to `enc` with new allocation
         for (j = 0; (j < i + 1); ++j) {
             enc = (char *) b64_realloc(enc, size + 1);
+            if (NULL == enc) { return NULL; }
             enc[size++] = b64_table[buf[j]];
         }
 
@@ -71,12 +73,14 @@ b64_encode (const unsigned char *src, size_t len) {
         // append `=' to `enc'
         while ((i++ < 3)) {
             enc = (char *) b64_realloc(enc, size + 1);
+            if (NULL == enc) { return NULL; }
             enc[size++] = '=';
         }
     }
 
     // Make sure we have enough space to add '\0' character at end.
     enc = (char *) b64_realloc(enc, size + 1);
+    if (NULL == enc) { return NULL; }
     enc[size] = '\0';
 
     return enc;
diff --git a/src/ssl.c b/src/ssl.c
index 2a5f19a..49495ff 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -814,6 +814,9 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
     SHA1((const unsigned char *)key, key_length, (unsigned char*) sha1Key);
 
     *accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH);
+    if ( unlikely(NULL == *accept_key) ) {
+        return 0;
+    }
     acceptKeyLength = strlen(*accept_key);
 #elif defined(USE_WOLFSSL)
     Sha sha;
@@ -826,6 +829,9 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
     }
 
     *accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH);
+    if ( unlikely(NULL == *accept_key) ) {
+        return 0;
+    }
     acceptKeyLength = strlen(*accept_key);
 #else
     SHA1Context sha;
@@ -843,6 +849,9 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
     }
 
     *accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH);
+    if ( unlikely(NULL == *accept_key) ) {
+        return 0;
+    }
     acceptKeyLength = strlen(*accept_key);
 #endif
 
-- 
2.43.0


From f57425f5e017151d313b20c903ffa198221717ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 45/62] fix: keep the poll back end running when a job cannot
 be handed to the threadpool

---
 src/event.c | 87 +++++++++++++++++++++++++++--------------------------
 1 file changed, 45 insertions(+), 42 deletions(-)

diff --git a/src/event.c b/src/event.c
index 0f89a5e..6f142eb 100644
--- a/src/event.c
+++ b/src/event.c
@@ -1060,6 +1060,47 @@ wss_error_t WSS_poll_remove(wss_server_t *server, int fd) {
     return WSS_SUCCESS;
 }
 
+/**
+ * Function that hands a job to the threadpool. If there is no room for it, the
+ * filedescriptor is watched again, such that its event is handled later.
+ *
+ * @param 	server	    [wss_server_t *]        "A pointer to a server structure"
+ * @param 	fd	        [int]	                "The file descriptor of the event"
+ * @param 	state	    [wss_session_state_t]	"The job to be done"
+ * @return 			    [wss_error_t]           "The error status"
+ */
+static wss_error_t delegate(wss_server_t *server, int fd, wss_session_state_t state) {
+    wss_error_t err = WSS_MEMORY_ERROR;
+    wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
+
+    if ( likely(NULL != args) ) {
+        args->server = server;
+        args->fd = fd;
+        args->state = state;
+
+        if ( likely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) == WSS_SUCCESS) ) {
+            return WSS_SUCCESS;
+        }
+
+        WSS_free((void **)&args);
+    }
+
+    if ( unlikely(err != WSS_MEMORY_ERROR && err != WSS_THREADPOOL_FULL_ERROR) ) {
+        return err;
+    }
+
+    // The server filedescriptor is still being watched
+    if (fd == server->fd) {
+        return WSS_SUCCESS;
+    }
+
+    if (state == WRITING) {
+        return WSS_poll_set_write(server, fd);
+    }
+
+    return WSS_poll_set_read(server, fd);
+}
+
 /**
  * Function that listens for new events on the servers file descriptor 
  *
@@ -1123,35 +1164,17 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
 
                 WSS_log_trace("Session %d is disconnecting", fd);
 
-                wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
-                if ( unlikely(NULL == args) ) {
-                    WSS_log_fatal("Failed allocating threadpool argument");
-                    return WSS_MEMORY_ERROR;
-                }
-                args->server = server;
-                args->fd = fd;
-                args->state = CLOSING;
-
-                if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
+                if ( unlikely((err = delegate(server, fd, CLOSING)) != WSS_SUCCESS) ) {
                     WSS_log_fatal("Failed adding disconnect job to worker pool");
-                    WSS_free((void **)&args);
                     return err;
                 }
             } else if (fd == server->fd) {
                 WSS_log_trace("New session connecting");
 
-                wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
-                if ( unlikely(NULL == args) ) {
-                    WSS_log_fatal("Failed allocating threadpool argument");
-                    return WSS_MEMORY_ERROR;
-                }
-                args->server = server;
-                args->state = CONNECTING;
-
                 /**
                  * If new session has connected
                  */
-                if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
+                if ( unlikely((err = delegate(server, fd, CONNECTING)) != WSS_SUCCESS) ) {
                     WSS_log_fatal("Failed adding connect job to worker pool");
                     return err;
                 }
@@ -1169,18 +1192,8 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
                     /**
                      * If new reads are ready
                      */
-                    wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
-                    if ( unlikely(NULL == args) ) {
-                        WSS_log_fatal("Failed allocating threadpool argument");
-                        return WSS_MEMORY_ERROR;
-                    }
-                    args->server = server;
-                    args->fd = fd;
-                    args->state = READING;
-
-                    if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
+                    if ( unlikely((err = delegate(server, fd, READING)) != WSS_SUCCESS) ) {
                         WSS_log_fatal("Failed adding read job to worker pool");
-                        WSS_free((void **)&args);
                         return err;
                     }
                 }
@@ -1191,18 +1204,8 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
                     /**
                      * If new writes are ready
                      */
-                    wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
-                    if ( unlikely(NULL == args) ) {
-                        WSS_log_fatal("Failed allocating threadpool argument");
-                        return WSS_MEMORY_ERROR;
-                    }
-                    args->server = server;
-                    args->fd = fd;
-                    args->state = WRITING;
-
-                    if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
+                    if ( unlikely((err = delegate(server, fd, WRITING)) != WSS_SUCCESS) ) {
                         WSS_log_fatal("Failed adding write job to worker pool");
-                        WSS_free((void **)&args);
                         return err;
                     }
                 }
-- 
2.43.0


From 6136b4b6514217cba75ab386e7d04f192fbe2055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 46/62] fix: refuse to start when the configured TLS ciphers
 cannot be used

The results of SSL_CTX_set_cipher_list and SSL_CTX_set_ciphersuites were
ignored: with a list OpenSSL does not accept the server silently offered its
default ciphers instead of the configured ones.
---
 src/ssl.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ssl.c b/src/ssl.c
index 49495ff..69c8d6d 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -156,13 +156,21 @@ wss_error_t WSS_http_ssl(wss_server_t *server) {
 
     if ( NULL != server->config->ssl_cipher_list ) {
         WSS_log_trace("Setting cipher list");
-        SSL_CTX_set_cipher_list(server->ssl_ctx, server->config->ssl_cipher_list);
+        if ( unlikely(SSL_SUCCESS != SSL_CTX_set_cipher_list(server->ssl_ctx, server->config->ssl_cipher_list)) ) {
+            ERR_error_string_n(ERR_get_error(), error, error_size);
+            WSS_log_error("Unable to set cipher list: %s", error);
+            return WSS_SSL_CTX_ERROR;
+        }
     }
 
     if ( NULL != server->config->ssl_cipher_suites ) {
 #if ! defined(LIBRESSL_VERSION_NUMBER) && ! defined(OPENSSL_IS_BORINGSSL)
         WSS_log_trace("Setting cipher suites");
-        SSL_CTX_set_ciphersuites(server->ssl_ctx, server->config->ssl_cipher_suites);
+        if ( unlikely(SSL_SUCCESS != SSL_CTX_set_ciphersuites(server->ssl_ctx, server->config->ssl_cipher_suites)) ) {
+            ERR_error_string_n(ERR_get_error(), error, error_size);
+            WSS_log_error("Unable to set cipher suites: %s", error);
+            return WSS_SSL_CTX_ERROR;
+        }
 #else
         if ( NULL != server->config->ssl_cipher_list ) {
             char list[strlen(server->config->ssl_cipher_list)+strlen(server->config->ssl_cipher_list)+2];
-- 
2.43.0


From c060d5476dad4b81c9ac61f85dfa17c925bf8977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 47/62] fix: the server's cipher preference was never enabled

SSL_OP_CIPHER_SERVER_PREFERENCE and SSL_OP_NO_COMPRESSION are options, but were
passed to SSL_CTX_set_mode, where these bits mean nothing: the client's order of
preference decided which cipher was used.
---
 src/ssl.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ssl.c b/src/ssl.c
index 69c8d6d..082330d 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -130,11 +130,11 @@ wss_error_t WSS_http_ssl(wss_server_t *server) {
 
     if (! server->config->ssl_compression) {
         WSS_log_trace("Do not use compression even if it is supported.");
-        SSL_CTX_set_mode(server->ssl_ctx, SSL_OP_NO_COMPRESSION);
+        SSL_CTX_set_options(server->ssl_ctx, SSL_OP_NO_COMPRESSION);
     }
 
     WSS_log_trace("When choosing a cipher, use the server's preferences instead of the client preferences.");
-    SSL_CTX_set_mode(server->ssl_ctx, SSL_OP_CIPHER_SERVER_PREFERENCE);
+    SSL_CTX_set_options(server->ssl_ctx, SSL_OP_CIPHER_SERVER_PREFERENCE);
 
     WSS_log_trace("Disable use of session and ticket cache and resumption");
     SSL_CTX_set_session_cache_mode(server->ssl_ctx, SSL_SESS_CACHE_OFF);
@@ -281,11 +281,11 @@ wss_error_t WSS_http_ssl(wss_server_t *server) {
 
     if (! server->config->ssl_compression) {
         WSS_log_trace("Do not use compression even if it is supported.");
-        wolfSSL_CTX_set_mode(server->ssl_ctx, SSL_OP_NO_COMPRESSION);
+        wolfSSL_CTX_set_options(server->ssl_ctx, SSL_OP_NO_COMPRESSION);
     }
 
     WSS_log_trace("When choosing a cipher, use the server's preferences instead of the client preferences.");
-    wolfSSL_CTX_set_mode(server->ssl_ctx, SSL_OP_CIPHER_SERVER_PREFERENCE);
+    wolfSSL_CTX_set_options(server->ssl_ctx, SSL_OP_CIPHER_SERVER_PREFERENCE);
 
     WSS_log_trace("Disable use of session and ticket cache and resumption");
     wolfSSL_CTX_set_session_cache_mode(server->ssl_ctx, SSL_SESS_CACHE_OFF);
-- 
2.43.0


From 0f44ed8f9ce26b42607c1082ecc7c8f41f43c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 48/62] fix: escaped characters of the even planes were read as
 other characters

---
 src/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.c b/src/json.c
index 43c58f0..c924592 100644
--- a/src/json.c
+++ b/src/json.c
@@ -334,7 +334,7 @@ if ((uchar & 0xF800) == 0xD800) {
                         uc_b2 = (uc_b3 << 4) | uc_b4;
                         uchar2 = (uc_b1 << 8) | uc_b2;
 
-                        uchar = 0x010000 | ((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF);
+                        uchar = 0x010000 + (((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF));
                     }
 
                     if (sizeof (json_char) >= sizeof (json_uchar) || (uchar <= 0x7F))
-- 
2.43.0


From c0a642b52d9118d7de3137f0f4487b5844c75da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 49/62] fix: a stop signal could deadlock on the log's own lock

The signal handler wrote to the log. When the signal interrupted the main
thread while that wrote to the log itself, it waited for a lock its own
thread held, and the server never stopped.
---
 src/server.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 98f5bff..2eb0506 100644
--- a/src/server.c
+++ b/src/server.c
@@ -306,7 +306,8 @@ static void WSS_server_interrupt(int sig) {
         case SIGILL:
         case SIGFPE:
             if (state.state != HALTING && state.state != HALT_ERROR) {
-                WSS_log_trace("Server is shutting down gracefully");
+                // The interrupted thread could be writing to the log, and would
+                // hold its lock, hence nothing is logged here.
                 WSS_server_set_state(HALTING);
                 WSS_server_halt();
             }
@@ -649,6 +650,8 @@ int WSS_server_start(wss_config_t *config) {
         WSS_server_set_state(HALT_ERROR);
     }
 
+    WSS_log_trace("Server is shutting down gracefully");
+
     WSS_log_trace("Cleanup thread has shutdown");
 
     pthread_join(http->thread_id, &res);
-- 
2.43.0


From dafb9883426d7b1b06a8bfc902988bde2ba96000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 50/62] fix: concurrent responses shared one broken-down time

gmtime returns storage shared by all threads, hence the Date and
Last-Modified headers of responses made at the same time got mixed up.
---
 src/worker.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index bdad1e7..2d245ee 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -206,7 +206,7 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     strncpy(savedlocale, setlocale(LC_ALL, NULL), 255);
     setlocale(LC_ALL, "C");
     now = time(0);
-    tm = *gmtime(&now);
+    gmtime_r(&now, &tm);
     memset(date, '\0', GMT_FORMAT_LENGTH);
     memset(modified, '\0', GMT_FORMAT_LENGTH);
     strftime(date, sizeof date, "%a, %d %b %Y %H:%M:%S %Z", &tm);
@@ -226,7 +226,7 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
         // Get last modified
         stat(config->favicon, &filestat);
         setlocale(LC_ALL, "C");
-        tm = *gmtime(&filestat.st_mtime);
+        gmtime_r(&filestat.st_mtime, &tm);
         strftime(modified, sizeof modified, "%a, %d %b %Y %H:%M:%S %Z", &tm);
         setlocale(LC_ALL, savedlocale);
 
@@ -358,7 +358,7 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     strncpy(savedlocale, setlocale(LC_ALL, NULL), 255);
     setlocale(LC_ALL, "C");
     now = time(0);
-    tm = *gmtime(&now);
+    gmtime_r(&now, &tm);
     strftime(date, sizeof date, "%a, %d %b %Y %H:%M:%S %Z", &tm);
     setlocale(LC_ALL, savedlocale);
 
-- 
2.43.0


From 7bea431480cd28700911b67ebf24fed0f4c104d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 51/62] fix: data after a final DEFLATE block was lost

A client may set BFINAL on a block (RFC 7692, 7.2.3.4), the decompressor
stopped there and the rest of the message and all later ones were lost.
---
 extensions/permessage-deflate/permessage-deflate.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index ff37407..300d097 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -721,16 +721,20 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
         comp->decompressor.next_out = (unsigned char *)message+message_length;
         switch (inflate(&comp->decompressor, flush_mask)) {
             case Z_OK:
-            case Z_STREAM_END:
             case Z_BUF_ERROR:
                 break;
+            case Z_STREAM_END:
+                // A block with BFINAL set does not end what the client sends,
+                // the blocks that follow use the same window
+                (void)inflateResetKeep(&comp->decompressor);
+                break;
             default:
                 allocs.free(payload);
                 allocs.free(message);
                 return;
         }
         message_length += default_chunk_size - comp->decompressor.avail_out;
-    } while ( comp->decompressor.avail_out == 0 );
+    } while ( comp->decompressor.avail_out == 0 || comp->decompressor.avail_in > 0 );
 
     allocs.free(payload);
 
-- 
2.43.0


From 759395410db348a11c0d6a7fddc3b748ef7a48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 52/62] fix: wait for a concurrent free of the last block
 before a span is reused

---
 src/rpmalloc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index cf7310b..058dd21 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -2028,6 +2028,15 @@ _rpmalloc_deallocate_direct_small_or_medium(span_t* span, void* block) {
 	*((void**)block) = span->free_list;
 	span->free_list = block;
 	if (UNEXPECTED(span->used_count == span->list_size)) {
+		// The last of the remaining blocks may still be in the process of being freed by another
+		// thread, which has counted it but not yet stored the list, wait until it is done with the span
+		if (span->used_count) {
+			void* free_list;
+			do {
+				free_list = atomic_exchange_ptr_acquire(&span->free_list_deferred, INVALID_POINTER);
+			} while (free_list == INVALID_POINTER);
+			atomic_store_ptr_release(&span->free_list_deferred, free_list);
+		}
 		_rpmalloc_span_double_link_list_remove(&heap->size_class[span->size_class].partial_span, span);
 		_rpmalloc_span_release_to_cache(heap, span);
 	}
-- 
2.43.0


From 6e0f1bdcafb8c05c82f1c197d66baee6023f0172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 53/62] fix: an allocation in a thread whose heap could not be
 mapped fails instead of crashing

---
 src/rpmalloc.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index 058dd21..08dd206 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -687,7 +687,11 @@ get_thread_heap(void) {
 	rpmalloc_initialize();
 	return get_thread_heap_raw();
 #else
-	return heap;
+	if (EXPECTED(heap != 0))
+		return heap;
+	// The heap of this thread could not be mapped when the thread started
+	rpmalloc_thread_initialize();
+	return get_thread_heap_raw();
 #endif
 }
 
@@ -1878,6 +1882,10 @@ _rpmalloc_allocate_huge(heap_t* heap, size_t size) {
 //! Allocate a block of the given size
 static void*
 _rpmalloc_allocate(heap_t* heap, size_t size) {
+	if (UNEXPECTED(!heap)) {
+		errno = ENOMEM;
+		return 0;
+	}
 	if (EXPECTED(size <= SMALL_SIZE_LIMIT))
 		return _rpmalloc_allocate_small(heap, size);
 	else if (size <= _memory_medium_size_limit)
@@ -1889,6 +1897,10 @@ _rpmalloc_allocate(heap_t* heap, size_t size) {
 
 static void*
 _rpmalloc_aligned_allocate(heap_t* heap, size_t alignment, size_t size) {
+	if (UNEXPECTED(!heap)) {
+		errno = ENOMEM;
+		return 0;
+	}
 	if (alignment <= SMALL_GRANULARITY)
 		return _rpmalloc_allocate(heap, size);
 
-- 
2.43.0


From e1f4aecc37fc0a93de667341ec00f90cdde3fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:34 +0000
Subject: [PATCH 54/62] fix: stop the workers of both server instances before
 one of them is freed

---
 include/http.h | 10 +++++++
 src/http.c     | 76 +++++++++++++++++++++++++++++++-------------------
 src/server.c   | 12 ++++++++
 3 files changed, 69 insertions(+), 29 deletions(-)

diff --git a/include/http.h b/include/http.h
index ce42472..216365c 100644
--- a/include/http.h
+++ b/include/http.h
@@ -24,6 +24,16 @@ wss_error_t WSS_http_regex_init(wss_server_t *server);
  */
 wss_error_t WSS_http_server(wss_server_t *server);
 
+/**
+ * Stops accepting connections and waits for the workers of the server instance
+ * to finish. The workers use the other server instance as well, hence all
+ * instances must be stopped before one of them is freed.
+ *
+ * @param   server	[wss_server_t *] 	"The http server"
+ * @return 			[wss_error_t]       "The error status"
+ */
+wss_error_t WSS_http_server_stop(wss_server_t *server);
+
 /**
  * Function that free op space allocated for the http server and closes the
  * filedescriptors in use..
diff --git a/src/http.c b/src/http.c
index c90d5d9..ff63f67 100644
--- a/src/http.c
+++ b/src/http.c
@@ -258,17 +258,18 @@ wss_error_t WSS_http_server(wss_server_t *server) {
 }
 
 /**
- * Function that free op space allocated for the http server and closes the
- * filedescriptors in use..
+ * Stops accepting connections and waits for the workers of the server instance
+ * to finish. The workers use the other server instance as well, hence all
+ * instances must be stopped before one of them is freed.
  *
  * @param   server	[wss_server_t *] 	"The http server"
  * @return 			[wss_error_t]       "The error status"
  */
-wss_error_t WSS_http_server_free(wss_server_t *server) {
+wss_error_t WSS_http_server_stop(wss_server_t *server) {
     int err;
-    int res = WSS_SUCCESS;
+    wss_error_t res = WSS_SUCCESS;
 
-    if ( likely(NULL != server) ) {
+    if ( likely(NULL != server && NULL != server->pool) ) {
         /**
          * Shutting down socket, such that no more reads is allowed.
          */
@@ -282,33 +283,50 @@ wss_error_t WSS_http_server_free(wss_server_t *server) {
         /**
          * Shutting down threadpool gracefully
          */
-        if ( likely(NULL != server->pool) ) {
-            if ( unlikely((err = threadpool_destroy(server->pool, threadpool_graceful)) != 0) ) {
-                WSS_log_error("Unable to destroy threadpool gracefully: %s", threadpool_strerror(errno));
-
-                switch (err) {
-                    case threadpool_invalid:
-                        res = WSS_THREADPOOL_LOCK_ERROR;
-                        break;
-                    case threadpool_lock_failure:
-                        res = WSS_THREADPOOL_LOCK_ERROR;
-                        break;
-                    case threadpool_queue_full:
-                        res = WSS_THREADPOOL_FULL_ERROR;
-                        break;
-                    case threadpool_shutdown:
-                        res = WSS_THREADPOOL_SHUTDOWN_ERROR;
-                        break;
-                    case threadpool_thread_failure:
-                        res = WSS_THREADPOOL_THREAD_ERROR;
-                        break;
-                    default:
-                        res = WSS_THREADPOOL_ERROR;
-                        break;
-                }
+        if ( unlikely((err = threadpool_destroy(server->pool, threadpool_graceful)) != 0) ) {
+            WSS_log_error("Unable to destroy threadpool gracefully: %s", threadpool_strerror(errno));
+
+            switch (err) {
+                case threadpool_invalid:
+                    res = WSS_THREADPOOL_LOCK_ERROR;
+                    break;
+                case threadpool_lock_failure:
+                    res = WSS_THREADPOOL_LOCK_ERROR;
+                    break;
+                case threadpool_queue_full:
+                    res = WSS_THREADPOOL_FULL_ERROR;
+                    break;
+                case threadpool_shutdown:
+                    res = WSS_THREADPOOL_SHUTDOWN_ERROR;
+                    break;
+                case threadpool_thread_failure:
+                    res = WSS_THREADPOOL_THREAD_ERROR;
+                    break;
+                default:
+                    res = WSS_THREADPOOL_ERROR;
+                    break;
             }
         }
 
+        server->pool = NULL;
+    }
+
+    return res;
+}
+
+/**
+ * Function that free op space allocated for the http server and closes the
+ * filedescriptors in use..
+ *
+ * @param   server	[wss_server_t *] 	"The http server"
+ * @return 			[wss_error_t]       "The error status"
+ */
+wss_error_t WSS_http_server_free(wss_server_t *server) {
+    wss_error_t res = WSS_SUCCESS;
+
+    if ( likely(NULL != server) ) {
+        res = WSS_http_server_stop(server);
+
         if ( NULL != server->re ) {
             regfree(server->re);
             WSS_free((void **) &server->re);
diff --git a/src/server.c b/src/server.c
index 2eb0506..1218a46 100644
--- a/src/server.c
+++ b/src/server.c
@@ -388,7 +388,10 @@ static int WSS_server_abort(wss_server_t *http, wss_server_t *https) {
         pthread_join(https->thread_id, NULL);
     }
 
+    WSS_http_server_stop(http);
+
     if (NULL != https) {
+        WSS_http_server_stop(https);
         WSS_server_free(https);
     }
 
@@ -674,6 +677,15 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("HTTPS server thread has shutdown");
     }
 
+    // The workers of an instance also write to the sessions of the other one
+    if ( unlikely(WSS_SUCCESS != WSS_http_server_stop(http)) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+
+    if ( ssl && unlikely(WSS_SUCCESS != WSS_http_server_stop(https)) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+
     if ( unlikely(WSS_server_free(http) != 0) ) {
         WSS_server_set_state(HALT_ERROR);
     }
-- 
2.43.0


From 0cd2a4fc63bc78f97e299ab9ac458ec6e4210181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 55/62] fix: an error one session left in the OpenSSL queue no
 longer ends another session

---
 src/ssl.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ssl.c b/src/ssl.c
index 082330d..ea97ab5 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -363,6 +363,8 @@ int WSS_ssl_read(wss_server_t *server, wss_session_t *session, char *buffer) {
     unsigned long err;
     
 #if defined(USE_OPENSSL)
+    // An error that another session left behind is not an error of this one
+    ERR_clear_error();
     n = SSL_read(session->ssl, buffer, server->config->size_buffer);
     err = SSL_get_error(session->ssl, n);
 #elif defined(USE_WOLFSSL)
@@ -438,6 +440,8 @@ bool WSS_ssl_write_partial(wss_session_t *session, unsigned int message_index, w
     unsigned int message_length = message->length;
 
 #if defined(USE_OPENSSL)
+    // An error that another session left behind is not an error of this one
+    ERR_clear_error();
     n = SSL_write(session->ssl, message->msg+*bytes_sent, message_length-*bytes_sent);
     err = SSL_get_error(session->ssl, n);
 #elif defined(USE_WOLFSSL)
@@ -541,6 +545,8 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
     WSS_log_trace("Performing SSL handshake");
 
 #if defined(USE_OPENSSL)
+    // An error that another session left behind is not an error of this one
+    ERR_clear_error();
     ret = SSL_do_handshake(session->ssl);
     err = SSL_get_error(session->ssl, ret);
 #elif defined(USE_WOLFSSL)
@@ -678,6 +684,7 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session) {
 
 #if defined(USE_OPENSSL)
     WSS_log_trace("Free ssl structure");
+    ERR_clear_error();
     if ( unlikely((err = SSL_shutdown(session->ssl)) < 0) ) {
         err = SSL_get_error(session->ssl, err);
         switch (err) {
-- 
2.43.0


From d50d29c8dd79e7582e210cd99345df81a7fc371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 56/62] fix: a session that was in use when the cleanup thread
 came by is pinged once it is not

It was left out until the next round, and closed then although its client answers every ping it gets.
---
 include/session.h |  2 ++
 src/server.c      | 43 +++++++++++++++++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/include/session.h b/include/session.h
index 8fe2d4d..90485bf 100644
--- a/include/session.h
+++ b/include/session.h
@@ -88,6 +88,8 @@ typedef struct {
     int messages_count;
     // Store the lastest activity of the session
     struct timespec alive;
+    // The round of the cleanup that last looked at the session
+    unsigned int round;
     // Store pong application data if a ping was sent to the session
     char *pong;
     // Length of the pong application data
diff --git a/src/server.c b/src/server.c
index 1218a46..6fabfd7 100644
--- a/src/server.c
+++ b/src/server.c
@@ -40,6 +40,17 @@ wss_servers_t servers;
  */
 struct timespec now;
 
+/**
+ * Milliseconds before the cleanup thread returns to a session it found in use
+ */
+#define BUSY_TIMEOUT 10
+
+/**
+ * The round of the cleanup, and whether it found sessions that were in use
+ */
+static unsigned int cleanup_round = 0;
+static bool cleanup_busy = false;
+
 static void cleanup_session(wss_session_t *session) {
     wss_frame_t *frame;
     wss_thread_args_t *args;
@@ -47,11 +58,20 @@ static void cleanup_session(wss_session_t *session) {
     int fd = session->fd;
     wss_server_t *server = servers.http;
 
-    // A session that is being used has not timed out
+    // A session that is being used is looked at when it is not used any longer
     if ( unlikely(0 != pthread_mutex_trylock(&session->lock)) ) {
+        cleanup_busy = true;
         return;
     }
 
+    // The session was not in use when the others of this round were looked at
+    if ( session->round == cleanup_round ) {
+        pthread_mutex_unlock(&session->lock);
+        return;
+    }
+
+    session->round = cleanup_round;
+
     // A session that is still being set up has not been active yet
     if ( unlikely(session->alive.tv_sec == 0 && session->alive.tv_nsec == 0) ) {
         pthread_mutex_unlock(&session->lock);
@@ -164,6 +184,7 @@ void *WSS_cleanup() {
     struct pollfd fds[1];
     wss_server_t *server = servers.http;
     long int timeout = server->config->timeout_client;
+    long int left, wait;
 
 #ifdef USE_RPMALLOC
     rpmalloc_thread_initialize();
@@ -179,16 +200,30 @@ void *WSS_cleanup() {
         WSS_log_info("Cleanup thread will run every %ld milliseconds", timeout);
     }
 
+    left = timeout;
+    cleanup_round = 0;
+    cleanup_busy = false;
+
     while ( likely(state.state == RUNNING) ) {
-        n = poll(fds, 1, timeout);
+        wait = (cleanup_busy && left > BUSY_TIMEOUT) ? BUSY_TIMEOUT : left;
+
+        n = poll(fds, 1, wait);
         if ( unlikely(n < 0 && errno != EINTR) ) {
 #ifdef USE_RPMALLOC
             rpmalloc_thread_finalize();
 #endif
             pthread_exit( ((void *) ((uintptr_t)WSS_CLEANUP_ERROR)) );
         } else if ( likely(n == 0) ) {
-            WSS_log_info("Pings clients and cleanup timedout ones");
-            
+            left -= wait;
+            if (left <= 0) {
+                WSS_log_info("Pings clients and cleanup timedout ones");
+
+                left = timeout;
+                cleanup_round++;
+            }
+
+            cleanup_busy = false;
+
             clock_gettime(CLOCK_MONOTONIC, &now);
             if ( unlikely(WSS_SUCCESS != (err = WSS_session_all(cleanup_session))) ) {
 #ifdef USE_RPMALLOC
-- 
2.43.0


From 6ac224f055625bb07c5d627362587d4d5b7fc0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 57/62] fix: apply the extensions to what is received in the
 reverse of their negotiated order

What the server sends passes through the negotiated extensions in the order
they are listed in the answer, and a client does the same with what it sends
(RFC 6455, 9.1). The last extension thus has to be undone first. Applying them
in the listed order hands every extension the output of the wrong stage as soon
as two of them change the payload.
---
 src/worker.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 2d245ee..bda1c43 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1405,8 +1405,9 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
             WSS_log_trace("Applying %d extensions on input", session->header->ws_extensions_count);
 
-            // Apply extensions to collection of frames (message)
-            for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
+            // Apply extensions to collection of frames (message),
+            // in the reverse order of the negotiated one
+            for (j = session->header->ws_extensions_count; likely(j-- > 0); ) {
                 // Apply extension perframe
                 for (k = 0; likely(k < len); k++) {
                     session->header->ws_extensions[j]->ext->inframe(
-- 
2.43.0


From 4077d60b900dbee0d64e15bf8d02795dd236d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:03 +0000
Subject: [PATCH 58/62] fix: a job for an event of an earlier session leaves a
 session that is still being set up alone

---
 src/worker.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index bda1c43..8c5540c 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1712,6 +1712,15 @@ void WSS_work(void *args) {
 
     pthread_mutex_lock(&session->lock);
 
+    // The event occured for a session that used the same filedescriptor before
+    // this one, which is not ready for any events yet
+    if ( unlikely(NULL == session->ringbuf && ! session->closing) ) {
+        WSS_log_trace("Session %d is still being set up", fd);
+        pthread_mutex_unlock(&session->lock);
+        WSS_session_jobs_dec(session);
+        return;
+    }
+
     session->event = NONE;
 
     session->working = true;
-- 
2.43.0


From 328c6fa63d76911f28ec445a2a6f51f230027389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:27 +0000
Subject: [PATCH 59/62] fix: Diffie-Hellman parameters that cannot be applied
 make the start-up fail like other TLS settings

---
 src/ssl.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ssl.c b/src/ssl.c
index ea97ab5..d5785e0 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -196,16 +196,22 @@ wss_error_t WSS_http_ssl(wss_server_t *server) {
                 if ( SSL_SUCCESS != SSL_CTX_set_tmp_dh(server->ssl_ctx, dh) ) {
                     ERR_error_string_n(ERR_get_error(), error, error_size);
                     WSS_log_error("Setting dhparam failed: %s", error);
+                    DH_free(dh);
+                    fclose(f);
+                    return WSS_SSL_CTX_ERROR;
                 }
                 DH_free(dh);
             } else {
                 ERR_error_string_n(ERR_get_error(), error, error_size);
                 WSS_log_error("Unable load dhparam: %s", error);
+                fclose(f);
+                return WSS_SSL_CTX_ERROR;
             }
 
             fclose(f);
         } else {
             WSS_log_error("Unable to open dhparam file: %s", strerror(errno));
+            return WSS_SSL_CTX_ERROR;
         }
     }
 
-- 
2.43.0


From ecd15a8b2f87d5452981e84a1e03558f14b6d1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:19 +0000
Subject: [PATCH 60/62] fix: the reason of a Close a subprotocol sends is taken
 from its message only, which need not be null terminated

---
 src/frame.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index 59e57e9..3b69f0e 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -495,6 +495,8 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
     wss_frame_t **frames;
     wss_close_t code;
     char *msg = message;
+    char *reason = NULL;
+    size_t reason_length = 0;
 
     if ( unlikely(NULL == config) ) {
         *fs = NULL;
@@ -520,15 +522,28 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         if ( likely(message_length >= sizeof(uint16_t)) ) {
             memcpy(&code, msg, sizeof(uint16_t));
             code = ntohs(code);
+            reason_length = message_length-sizeof(uint16_t);
             msg = msg + sizeof(uint16_t);
         } else if ( unlikely(message_length == 1) ) {
             code = CLOSE_PROTOCOL;
-            msg = msg + 1;
         } else {
             code = CLOSE_NORMAL;
         }
 
-        frame = WSS_closing_frame(code, msg);
+        // The message is not necessarily null terminated
+        if ( likely(NULL != message) ) {
+            if ( unlikely(NULL == (reason = WSS_malloc(reason_length+1))) ) {
+                WSS_log_error("Unable to allocate reason of closing frame");
+                WSS_free((void **)&frames);
+                *fs = NULL;
+                return 0;
+            }
+            memcpy(reason, msg, reason_length);
+            reason[reason_length] = '\0';
+        }
+
+        frame = WSS_closing_frame(code, reason);
+        WSS_free((void **)&reason);
         frames[0] = frame;
         return 1;
     }
-- 
2.43.0


From 0a57363ee886fbda9dcbe8f30f1360efae7d24a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:13 +0000
Subject: [PATCH 61/62] fix: The handler of signals changes errno of the code
 it interrupts

A signal that arrives between a failing system call and the inspection of
errno made the server treat the failure wrongly, e.g. an interrupt during the
start-up made WSS_poll_add fail and the stop of the server unsuccessful.
---
 src/server.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server.c b/src/server.c
index 6fabfd7..d05d542 100644
--- a/src/server.c
+++ b/src/server.c
@@ -335,6 +335,9 @@ static void WSS_server_halt_close() {
  * @return 	        [void]
  */
 static void WSS_server_interrupt(int sig) {
+    // The interrupted code could be about to look at errno
+    int err = errno;
+
     switch (sig) {
         case SIGINT:
         case SIGSEGV:
@@ -348,10 +351,11 @@ static void WSS_server_interrupt(int sig) {
             }
             break;
         case SIGPIPE:
-            break;
         default:
-            return;
+            break;
     }
+
+    errno = err;
 }
 
 /**
-- 
2.43.0


From 4039ddbf4428d672adbee037d932a898a77c8e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:21 +0000
Subject: [PATCH 62/62] fix: A signal can deadlock the thread that changes the
 state

The handler of the signals takes the lock of the state, hence a signal that
arrived while a start-up failure was recorded blocked the thread forever.
---
 src/server.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server.c b/src/server.c
index d05d542..10db6a6 100644
--- a/src/server.c
+++ b/src/server.c
@@ -152,9 +152,18 @@ static void cleanup_session(wss_session_t *session) {
  * @return 	    [void]
  */
 void WSS_server_set_state(wss_state_t s) {
+    sigset_t all, old;
+
+    // The handler of the signals changes the state as well, hence it must not
+    // interrupt the thread that holds the lock
+    sigfillset(&all);
+    pthread_sigmask(SIG_SETMASK, &all, &old);
+
     pthread_mutex_lock(&state.lock);
     state.state = s;
     pthread_mutex_unlock(&state.lock);
+
+    pthread_sigmask(SIG_SETMASK, &old, NULL);
 }
 
 /**
-- 
2.43.0

