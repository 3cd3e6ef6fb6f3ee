From 95e689d9ded424282bbccb241a10e66ab4403926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 01/49] fix: never use a session after its disconnect, and
 never wait for the own job

A failing TLS handshake or allocation disconnected the session while its own
job was registered, so the disconnect waited for itself, and WSS_work used the
session after WSS_disconnect had freed it. Jobs are now released last, and the
session table lock is no longer released twice when SSL_shutdown would block.
---
 include/ssl.h |  3 +--
 src/session.c |  3 +--
 src/ssl.c     | 24 ++++++++------------
 src/worker.c  | 62 +++++++++++++++++++++++++--------------------------
 4 files changed, 42 insertions(+), 50 deletions(-)

diff --git a/include/ssl.h b/include/ssl.h
index 6e55b39..d49128b 100644
--- a/include/ssl.h
+++ b/include/ssl.h
@@ -97,10 +97,9 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session);
  * Function frees SSL session instance that was used to serve over https.
  *
  * @param   session	[wss_session_t *] 	    "The session instance"
- * @param   lock	[pthread_rwlock_t *] 	"The read/write session lock"
  * @return 			[wss_error_t]           "An error or success"
  */
-wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock);
+wss_error_t WSS_session_ssl_free(wss_session_t *session);
 
 /**
  * Function creates a sha1 hash of the key.
diff --git a/src/session.c b/src/session.c
index d3a1039..2d8c056 100644
--- a/src/session.c
+++ b/src/session.c
@@ -148,7 +148,6 @@ static wss_error_t session_delete(wss_session_t *session) {
     size_t j;
 
     if ( likely(NULL != session) ) {
-        pthread_mutex_unlock(&session->lock);
         if ( unlikely((err = pthread_mutex_destroy(&session->lock)) != 0) ) {
             err = WSS_SESSION_LOCK_DESTROY_ERROR;
         }
@@ -204,7 +203,7 @@ static wss_error_t session_delete(wss_session_t *session) {
         WSS_free((void **) &session->ringbuf);
 
         if (NULL != session->ssl) {
-            err = WSS_session_ssl_free(session, &lock);
+            err = WSS_session_ssl_free(session);
         }
 
         WSS_log_trace("Deleting client from hash table");
diff --git a/src/ssl.c b/src/ssl.c
index 8761990..680024a 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -569,7 +569,8 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
         }
 #endif
 
-        WSS_disconnect(server, session);
+        // The caller disconnects the session once it has left it
+        session->closing = true;
         return;
     }
 
@@ -602,7 +603,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = SSL_new(server->ssl_ctx))) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -610,7 +610,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(SSL_set_fd(session->ssl, session->fd) != 1) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -625,7 +624,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = wolfSSL_new(server->ssl_ctx))) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -633,7 +631,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(wolfSSL_set_fd(session->ssl, session->fd) != 1) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -650,10 +647,9 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
  * Function frees SSL session instance that was used to serve over https.
  *
  * @param   session	[wss_session_t *] 	    "The session instance"
- * @param   lock	[pthread_rwlock_t *] 	"The read/write session lock"
  * @return 			[wss_error_t]           "An error or success"
  */
-wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock) {
+wss_error_t WSS_session_ssl_free(wss_session_t *session) {
     int err = WSS_SUCCESS;
 
 #if defined(USE_OPENSSL)
@@ -662,11 +658,10 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                // The session is about to be freed, so there is nobody left to
+                // wait for the close notification of the client
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
@@ -691,11 +686,10 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                // The session is about to be freed, so there is nobody left to
+                // wait for the close notification of the client
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
diff --git a/src/worker.c b/src/worker.c
index e98b6ac..dace8b8 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -399,7 +399,6 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
  * @return          [void]
  */
 void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
-    int i;
     wss_error_t err;
     bool dc;
 
@@ -432,21 +431,7 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
         WSS_log_info("Session %d disconnected from ip: %s:%d using HTTPS request", session->fd, session->ip, session->port);
     }
 
-    for (i = 0; i < session->jobs; i++) {
-        pthread_mutex_unlock(&session->lock);
-    }
-
     if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete(session))) ) {
-        switch (err) {
-            case WSS_SSL_SHUTDOWN_READ_ERROR:
-                session->event = READ;
-                return;
-            case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                session->event = WRITE;
-                return;
-            default:
-                break;
-        }
         WSS_log_error("Unable to delete client session, received error code: %d", err);
         return;
     }
@@ -468,6 +453,7 @@ void WSS_connect(wss_server_t *server) {
     socklen_t client_size;
     wss_session_t *session;
     ringbuf_t *ringbuf;
+    bool closing;
     size_t workers = server->config->pool_workers+1;
 
     client_size	= sizeof(client);
@@ -505,15 +491,19 @@ void WSS_connect(wss_server_t *server) {
         ringbuf_get_sizes(0, workers, &ringbuf_obj_size, NULL);
         if ( unlikely(NULL == (ringbuf = WSS_malloc(ringbuf_obj_size))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer");
+            pthread_mutex_unlock(&session->lock);
+            WSS_session_jobs_dec(session);
             WSS_disconnect(server, session);
-            return;
+            continue;
         }
 
         if ( unlikely(NULL == (session->messages = WSS_malloc(server->config->size_ringbuffer*sizeof(wss_message_t *)))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer messages");
             WSS_free((void **)&ringbuf);
+            pthread_mutex_unlock(&session->lock);
+            WSS_session_jobs_dec(session);
             WSS_disconnect(server, session);
-            return;
+            continue;
         }
         session->messages_count = server->config->size_ringbuffer;
 
@@ -527,12 +517,11 @@ void WSS_connect(wss_server_t *server) {
         }
 
         if (NULL != server->ssl_ctx) {
-            if (! WSS_session_ssl(server, session)) {
-                WSS_free((void **)&ringbuf);
-                return;
+            if ( likely(WSS_session_ssl(server, session)) ) {
+                WSS_ssl_handshake(server, session);
+            } else {
+                session->closing = true;
             }
-
-            WSS_ssl_handshake(server, session);
         } else {
             session->state = IDLE;
 
@@ -544,8 +533,14 @@ void WSS_connect(wss_server_t *server) {
 
         }
 
-        WSS_session_jobs_dec(session);
+        closing = session->closing;
+
         pthread_mutex_unlock(&session->lock);
+        WSS_session_jobs_dec(session);
+
+        if ( unlikely(closing) ) {
+            WSS_disconnect(server, session);
+        }
     }
 }
 
@@ -1427,6 +1422,7 @@ void WSS_work(void *args) {
     wss_server_t *server = (wss_server_t *) arguments->server;
     wss_session_state_t session_state = arguments->state;
     int fd = arguments->fd;
+    bool closing;
 
     // Free arguments structure as this won't be needed no more
     WSS_free((void **) &arguments);
@@ -1472,9 +1468,7 @@ void WSS_work(void *args) {
         case CONNECTING:
             if (NULL != server->ssl_ctx) {
                 WSS_ssl_handshake(server, session);
-                WSS_session_jobs_dec(session);
-                pthread_mutex_unlock(&session->lock);
-                return;
+                break;
             }
 
             WSS_read(server, session);
@@ -1513,14 +1507,13 @@ void WSS_work(void *args) {
             }
     }
 
-    WSS_session_jobs_dec(session);
-    pthread_mutex_unlock(&session->lock);
-
-    if (session->closing) {
+    closing = session->closing;
+    if ( unlikely(closing) ) {
         session->event = NONE;
-        WSS_disconnect(server, session);
     }
 
+    // The session must not be used after the job has been released, since it
+    // may then be freed by another thread
     switch (session->event) {
         case WRITE: 
             clock_gettime(CLOCK_MONOTONIC, &session->alive);
@@ -1533,4 +1526,11 @@ void WSS_work(void *args) {
         case NONE: 
             break;
     }
+
+    pthread_mutex_unlock(&session->lock);
+    WSS_session_jobs_dec(session);
+
+    if ( unlikely(closing) ) {
+        WSS_disconnect(server, session);
+    }
 }
-- 
2.43.0


From 9b820f6b10220c73c608a007f50d1ca91c342327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 02/49] fix: return when the lock attributes of a new session
 cannot be set

---
 src/session.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session.c b/src/session.c
index 2d8c056..3db43c5 100644
--- a/src/session.c
+++ b/src/session.c
@@ -88,7 +88,10 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
     
     if ( unlikely((err = pthread_mutexattr_settype(&session->lock_attr, PTHREAD_MUTEX_RECURSIVE)) != 0) ) {
         WSS_log_error("Unable to initialize session locks attributes: %s", strerror(err));
+        pthread_mutexattr_destroy(&session->lock_attr);
         WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
     }
 
     if ( unlikely((err = pthread_mutex_init(&session->lock, &session->lock_attr)) != 0) ) {
-- 
2.43.0


From 9e693a3eaddac66d28956142200bf39c2fcc9a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 03/49] fix: free the payload of the pending frames of a
 deleted session

---
 src/session.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.c b/src/session.c
index 3db43c5..9b99254 100644
--- a/src/session.c
+++ b/src/session.c
@@ -178,7 +178,7 @@ static wss_error_t session_delete(wss_session_t *session) {
 
         WSS_log_trace("Free frames");
         for (j = 0; likely(j < session->frames_length); j++) {
-            WSS_free((void **) &session->frames[j]);
+            WSS_free_frame(session->frames[j]);
         }
         WSS_free((void **) &session->frames);
 
-- 
2.43.0


From b8df5f67068c3f904c7782333b03a22e60c0fa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 04/49] fix: inform the subprotocol of a closed session once,
 and only if it has one

---
 src/server.c  | 2 ++
 src/session.c | 4 +++-
 src/worker.c  | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 0cdca9d..4d6a764 100644
--- a/src/server.c
+++ b/src/server.c
@@ -132,6 +132,8 @@ static void cleanup_session(wss_session_t *session) {
         if ( NULL != session->header && session->header->ws_protocol != NULL ) {
             WSS_log_trace("Informing subprotocol about session close");
             session->header->ws_protocol->close(session->fd);
+            // The subprotocol must only be informed once
+            session->header->ws_protocol = NULL;
         }
 
         WSS_log_trace("Removing poll filedescriptor from eventlist");
diff --git a/src/session.c b/src/session.c
index 9b99254..1c59c31 100644
--- a/src/session.c
+++ b/src/session.c
@@ -188,7 +188,9 @@ static wss_error_t session_delete(wss_session_t *session) {
                 session->header->ws_extensions[j]->ext->close(session->fd);
             }
 
-            session->header->ws_protocol->close(session->fd);
+            if ( NULL != session->header->ws_protocol ) {
+                session->header->ws_protocol->close(session->fd);
+            }
 
             WSS_free_header(session->header);
         }
diff --git a/src/worker.c b/src/worker.c
index dace8b8..84353b4 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -417,6 +417,8 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
     if ( NULL != session->header && session->header->ws_protocol != NULL ) {
         WSS_log_trace("Informing subprotocol about session close");
         session->header->ws_protocol->close(session->fd);
+        // The subprotocol must only be informed once
+        session->header->ws_protocol = NULL;
     }
 
     WSS_log_trace("Removing poll filedescriptor from eventlist");
-- 
2.43.0


From 50327ff728180d948379e267632072f14f6b9a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 05/49] fix: release the job of a session on every exit of
 WSS_message_send_frames

---
 src/message.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/message.c b/src/message.c
index 6e45c1d..80be5fc 100644
--- a/src/message.c
+++ b/src/message.c
@@ -40,6 +40,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
 
+        WSS_session_jobs_dec(session);
+
         return;
     }
 
@@ -48,6 +50,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_free((void **) &out);
 
+        WSS_session_jobs_dec(session);
+
         return;
     }
     m->msg = out;
@@ -61,6 +65,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_message_free(m);
 
+        WSS_session_jobs_dec(session);
+
         return;
     }
 
@@ -78,22 +84,22 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
             nanosleep(&tim, NULL);
             break;
         case CLOSING:
-            WSS_session_jobs_dec(session);
             pthread_mutex_unlock(&session->lock);
+            WSS_session_jobs_dec(session);
             return;
         case CONNECTING:
             pthread_mutex_unlock(&session->lock);
             nanosleep(&tim, NULL);
             break;
         case WRITING:
-            WSS_session_jobs_dec(session);
             pthread_mutex_unlock(&session->lock);
+            WSS_session_jobs_dec(session);
             return;
         case IDLE:
             session->state = WRITING;
             WSS_write(server, session);
-            WSS_session_jobs_dec(session);
             pthread_mutex_unlock(&session->lock);
+            WSS_session_jobs_dec(session);
             return;
         }
     } while (1);
-- 
2.43.0


From bf6938f4f4ae4d913e8c81d7239f0e114fe64303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 06/49] fix: find a session and register the job on it in one
 step

Between WSS_session_find and WSS_session_jobs_inc another thread could free
the session. A disconnect likewise claims the session before it releases its
own job.
---
 include/session.h | 10 ++++++++++
 include/worker.h  |  3 ++-
 src/message.c     |  4 +---
 src/session.c     | 34 ++++++++++++++++++++++++++++++++++
 src/worker.c      | 19 ++++++++++---------
 5 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/include/session.h b/include/session.h
index 3055e46..e6ec33c 100644
--- a/include/session.h
+++ b/include/session.h
@@ -184,6 +184,16 @@ wss_error_t WSS_session_jobs_inc(wss_session_t *session);
  */
 wss_error_t WSS_session_jobs_dec(wss_session_t *session);
 
+/**
+ * Function that finds a session using the filedescriptor of the session and
+ * registers a job on it, such that the session is not freed before the job is
+ * released using WSS_session_jobs_dec.
+ *
+ * @param 	fd 	[int] 		          "The filedescriptor associated to some session"
+ * @return 	    [wss_session_t *] 	  "The session, or NULL if there is none or it is disconnecting"
+ */
+wss_session_t *WSS_session_acquire(int fd);
+
 /**
  * Function that waits for all jobs to be done.
  *
diff --git a/include/worker.h b/include/worker.h
index 8443cfd..5c25c09 100644
--- a/include/worker.h
+++ b/include/worker.h
@@ -73,7 +73,8 @@ typedef struct {
 
 /**
  * Function that disconnects a session and freeing any allocated memory used by
- * the session.
+ * the session. The caller must have registered a job on the session, which is
+ * released by this function.
  *
  * @param 	server	[wss_server_t *] 	"The server structure"
  * @param 	session	[wss_session_t *] 	"The session structure"
diff --git a/src/message.c b/src/message.c
index 80be5fc..cc17aa7 100644
--- a/src/message.c
+++ b/src/message.c
@@ -112,13 +112,11 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
     wss_frame_t **frames;
     wss_server_t *server = servers.http;
 
-    if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
+    if ( unlikely(NULL == (session = WSS_session_acquire(fd))) ) {
         WSS_log_error("Unable to find session to send message to");
         return;
     }
 
-    WSS_session_jobs_inc(session);
-
     if (NULL != session->ssl && session->ssl_connected) {
         server = servers.https;
     }
diff --git a/src/session.c b/src/session.c
index 1c59c31..8fde323 100644
--- a/src/session.c
+++ b/src/session.c
@@ -453,3 +453,37 @@ wss_session_t *WSS_session_find(int fd) {
 
     return session;
 }
+
+/**
+ * Function that finds a session using the filedescriptor of the session and
+ * registers a job on it, such that the session is not freed before the job is
+ * released using WSS_session_jobs_dec.
+ *
+ * @param 	fd 	[int] 		          "The filedescriptor associated to some session"
+ * @return 	    [wss_session_t *] 	  "The session, or NULL if there is none or it is disconnecting"
+ */
+wss_session_t *WSS_session_acquire(int fd) {
+    int err;
+    bool acquired = false;
+    wss_session_t *session = NULL;
+
+    if ( unlikely((err = pthread_rwlock_rdlock(&lock)) != 0) ) {
+        WSS_log_error("Unable to lock session lock: %s", strerror(err));
+        return NULL;
+    }
+
+    HASH_FIND_INT(sessions, &fd, session);
+
+    if ( likely(NULL != session) ) {
+        if ( likely((err = pthread_mutex_lock(&session->lock_disconnecting)) == 0) ) {
+            if ( likely(! session->disconnecting) ) {
+                acquired = (WSS_SUCCESS == WSS_session_jobs_inc(session));
+            }
+            pthread_mutex_unlock(&session->lock_disconnecting);
+        }
+    }
+
+    pthread_rwlock_unlock(&lock);
+
+    return acquired ? session : NULL;
+}
diff --git a/src/worker.c b/src/worker.c
index 84353b4..65178ca 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -392,7 +392,8 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
 
 /**
  * Function that disconnects a session and freeing any allocated memory used by
- * the session.
+ * the session. The caller must have registered a job on the session, which is
+ * released by this function.
  *
  * @param 	server	[wss_server_t *] 	"The server structure"
  * @param 	session	[wss_session_t *] 	"The session structure"
@@ -404,6 +405,9 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
 
     // If we are already closing
     WSS_session_is_disconnecting(session, &dc);
+
+    // From here on only the thread that disconnects the session may use it
+    WSS_session_jobs_dec(session);
     if (dc) {
         return;
     }
@@ -494,7 +498,6 @@ void WSS_connect(wss_server_t *server) {
         if ( unlikely(NULL == (ringbuf = WSS_malloc(ringbuf_obj_size))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer");
             pthread_mutex_unlock(&session->lock);
-            WSS_session_jobs_dec(session);
             WSS_disconnect(server, session);
             continue;
         }
@@ -503,7 +506,6 @@ void WSS_connect(wss_server_t *server) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer messages");
             WSS_free((void **)&ringbuf);
             pthread_mutex_unlock(&session->lock);
-            WSS_session_jobs_dec(session);
             WSS_disconnect(server, session);
             continue;
         }
@@ -538,10 +540,11 @@ void WSS_connect(wss_server_t *server) {
         closing = session->closing;
 
         pthread_mutex_unlock(&session->lock);
-        WSS_session_jobs_dec(session);
 
         if ( unlikely(closing) ) {
             WSS_disconnect(server, session);
+        } else {
+            WSS_session_jobs_dec(session);
         }
     }
 }
@@ -1435,14 +1438,11 @@ void WSS_work(void *args) {
         return;
     }
 
-    if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
+    if ( unlikely(NULL == (session = WSS_session_acquire(fd))) ) {
         WSS_log_trace("Unable to find client with session %d", fd);
         return;
     }
 
-    WSS_log_trace("Incrementing session jobs");
-
-    WSS_session_jobs_inc(session);
     pthread_mutex_lock(&session->lock);
 
     session->event = NONE;
@@ -1530,9 +1530,10 @@ void WSS_work(void *args) {
     }
 
     pthread_mutex_unlock(&session->lock);
-    WSS_session_jobs_dec(session);
 
     if ( unlikely(closing) ) {
         WSS_disconnect(server, session);
+    } else {
+        WSS_session_jobs_dec(session);
     }
 }
-- 
2.43.0


From 5cc770c8b94ddfff2453e3d10f13c14dac943d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 07/49] fix: close the filedescriptor of a client whose session
 cannot be added

---
 src/worker.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.c b/src/worker.c
index 65178ca..be8548f 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -484,6 +484,7 @@ void WSS_connect(wss_server_t *server) {
 
         if ( unlikely(NULL == (session = WSS_session_add(client_fd,
                         inet_ntoa(client.sin_addr), ntohs(client.sin_port)))) ) {
+            close(client_fd);
             continue;
         }
 
-- 
2.43.0


From e33e48b5934f4677ca0dc62441cafa8fa62d167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 08/49] fix: retry an interrupted read instead of treating it
 as an error

---
 src/worker.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index be8548f..37d4265 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -592,7 +592,7 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
     if ( NULL != session->ssl ) {
         n = WSS_ssl_read(server, session, buffer);
     } else {
-        do {
+        while (1) {
             n = read(session->fd, buffer, server->config->size_buffer);
             if (n == -1) {
                 if ( unlikely(errno == EINTR) ) {
@@ -605,7 +605,8 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
                     n = 0;
                 }
             }
-        } while ( unlikely(0) );
+            break;
+        }
     }
 
     return n;
-- 
2.43.0


From 11b058ffcc6c03a8319a509e42deab20cec4fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 09/49] fix: let the cleanup thread use sessions through a job
 and their IO lock

It deleted sessions from the hash table while only holding the read lock,
waited for jobs while holding it, and wrote control frames in the middle of
frames other threads had not completely written. A session that was active
after the timestamp of the round was taken also counted as timed out.
---
 include/session.h |  14 ++----
 src/server.c      | 110 ++++++++++++++++++++--------------------------
 src/session.c     |  43 +++++++++---------
 src/ssl.c         |   2 +-
 4 files changed, 73 insertions(+), 96 deletions(-)

diff --git a/include/session.h b/include/session.h
index e6ec33c..9c96189 100644
--- a/include/session.h
+++ b/include/session.h
@@ -125,16 +125,6 @@ wss_error_t WSS_session_destroy_lock();
  */
 wss_session_t *WSS_session_add(int fd, char* ip, int port);
 
-/**
- * Function that frees the allocated memory and removes the session from the 
- * hashtable but without locking the hashtable. This should only be used in
- * conjunction with the WSS_session_all call.
- *
- * @param 	session	[wss_session_t *] 	"The session to be deleted"
- * @return 		    [wss_error_t] 	    "The error status"
- */
-wss_error_t WSS_session_delete_no_lock(wss_session_t *session);
-
 /**
  * Function that frees the allocated memory and removes the session from the 
  * hashtable.
@@ -152,7 +142,9 @@ wss_error_t WSS_session_delete(wss_session_t *session);
 wss_error_t WSS_session_delete_all();
 
 /**
- * Function that finds all sessions and calls callback for each of them.
+ * Function that finds all sessions and calls callback for each of them. A job
+ * has been registered on the session when the callback is called, and the
+ * callback must release it.
  *
  * @param   callback       [void (*callback)(wss_session_t *, void *)]    "A callback to be called for each session"
  * @return                 [wss_error_t] 	                              "The error status"
diff --git a/src/server.c b/src/server.c
index 4d6a764..3ef3b44 100644
--- a/src/server.c
+++ b/src/server.c
@@ -34,10 +34,6 @@ wss_server_state_t state;
  */
 wss_servers_t servers;
 
-/**
- * Global variable holding current timestamp 
- */
-struct timespec now;
 
 static inline void write_control_frame(wss_frame_t *frame, wss_session_t *session) {
     size_t j;
@@ -82,20 +78,29 @@ static inline void write_control_frame(wss_frame_t *frame, wss_session_t *sessio
             }
             written += n;
         } while ( written < message_length );
+
+        // The client is not able to read anything after half a frame
+        if ( unlikely(written < message_length) ) {
+            session->closing = true;
+        }
     }
 
     WSS_free((void **) &message);
 }
 
 static void cleanup_session(wss_session_t *session) {
-    wss_error_t err;
     wss_frame_t *frame;
-    long unsigned int ms;
+    struct timespec now;
+    long int ms;
+    bool closing;
     int fd = session->fd;
     wss_server_t *server = servers.http;
-    bool dc;
+
+    pthread_mutex_lock(&session->lock);
 
     if (! session->handshaked) {
+        pthread_mutex_unlock(&session->lock);
+        WSS_session_jobs_dec(session);
         return;
     }
 
@@ -103,87 +108,67 @@ static void cleanup_session(wss_session_t *session) {
         server = servers.https;
     }
 
+    clock_gettime(CLOCK_MONOTONIC, &now);
     ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
 
     WSS_log_info("Check timeout %d ms", ms);
 
     // Session timed out
-    if ( unlikely(server->config->timeout_client >= 0 && ms >= (long unsigned int)server->config->timeout_client) ) {
-        WSS_session_is_disconnecting(session, &dc);
-        if (dc) {
-            return;
-        }
-
-        WSS_session_jobs_wait(session);
-
+    if ( unlikely(server->config->timeout_client >= 0 && ms >= server->config->timeout_client) ) {
         WSS_log_info("Session %d has timedout last active %d ms ago", fd, ms);
 
         session->closing = true;
-        session->state = CLOSING;
 
-        if (! session->ssl_connected) {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTP request, due to timing out", session->fd, session->ip, session->port);
-        } else {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTPS request, due to timing out", session->fd, session->ip, session->port);
-        }
+        // A control frame cannot be put in the middle of a message that is
+        // not completely written
+        if ( likely(session->state != WRITING) ) {
+            WSS_log_trace("Sending close frame", fd);
 
-        WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
-
-        if ( NULL != session->header && session->header->ws_protocol != NULL ) {
-            WSS_log_trace("Informing subprotocol about session close");
-            session->header->ws_protocol->close(session->fd);
-            // The subprotocol must only be informed once
-            session->header->ws_protocol = NULL;
+            if ( likely(NULL != (frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL))) ) {
+                write_control_frame(frame, session);
+            }
         }
 
-        WSS_log_trace("Removing poll filedescriptor from eventlist");
+        session->state = CLOSING;
 
-        WSS_poll_remove(server, fd);
+        pthread_mutex_unlock(&session->lock);
 
-        WSS_log_trace("Sending close frame", fd);
+        WSS_disconnect(server, session);
 
-        frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL);
+        WSS_log_info("Client with session %d disconnected", fd);
 
-        write_control_frame(frame, session);
+        return;
 
-        WSS_log_trace("Deleting client session");
+    // Ping session to keep it alive
+    } else if (server->config->timeout_pings > 0 && session->state != WRITING) {
+        WSS_log_info("Pinging session %d", fd);
 
-        if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete_no_lock(session))) ) {
-            switch (err) {
-                case WSS_SSL_SHUTDOWN_READ_ERROR:
-                        WSS_poll_set_read(server, fd);
-                    return;
-                case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                        WSS_poll_set_write(server, fd);
-                    return;
-                default:
-                    break;
+        if ( likely(NULL != (frame = WSS_ping_frame())) ) {
+            if (session->pong != NULL) {
+                WSS_free((void **) &session->pong);
+                session->pong_length = 0;
             }
-            WSS_log_error("Unable to delete client session, received error code: %d", err);
-            return;
-        }
 
-        WSS_log_info("Client with session %d disconnected", fd);
+            if ( likely(NULL != (session->pong = WSS_malloc(frame->applicationDataLength))) ) {
+                session->pong_length = frame->applicationDataLength;
 
-    // Ping session to keep it alive
-    } else if (server->config->timeout_pings > 0 ) {
-        WSS_log_info("Pinging session %d", fd);
+                memcpy(session->pong, frame->payload+frame->extensionDataLength, frame->applicationDataLength);
 
-        frame = WSS_ping_frame();
-        if (session->pong != NULL) {
-            WSS_free((void **) &session->pong);
-            session->pong_length = 0;
+                write_control_frame(frame, session);
+            } else {
+                WSS_free_frame(frame);
+            }
         }
+    }
 
-        if (NULL == (session->pong = WSS_malloc(frame->applicationDataLength))) {
-            WSS_free_frame(frame);
-            return;
-        }
-        session->pong_length = frame->applicationDataLength;
+    closing = session->closing;
 
-        memcpy(session->pong, frame->payload+frame->extensionDataLength, frame->applicationDataLength);
+    pthread_mutex_unlock(&session->lock);
 
-        write_control_frame(frame, session);
+    if ( unlikely(closing) ) {
+        WSS_disconnect(server, session);
+    } else {
+        WSS_session_jobs_dec(session);
     }
 }
 
@@ -251,7 +236,6 @@ void *WSS_cleanup() {
         } else if ( likely(n == 0) ) {
             WSS_log_info("Pings clients and cleanup timedout ones");
             
-            clock_gettime(CLOCK_MONOTONIC, &now);
             if ( unlikely(WSS_SUCCESS != (err = WSS_session_all(cleanup_session))) ) {
 #ifdef USE_RPMALLOC
                 rpmalloc_thread_finalize();
diff --git a/src/session.c b/src/session.c
index 8fde323..d437162 100644
--- a/src/session.c
+++ b/src/session.c
@@ -228,24 +228,6 @@ static wss_error_t session_delete(wss_session_t *session) {
     return WSS_SUCCESS;
 }
 
-/**
- * Function that frees the allocated memory and removes the session from the 
- * hashtable but without locking the hashtable. This should only be used in
- * conjunction with the WSS_session_all call.
- *
- * @param 	session	[wss_session_t *] 	"The session to be deleted"
- * @return 		    [wss_error_t] 	    "The error status"
- */
-wss_error_t WSS_session_delete_no_lock(wss_session_t *session) {
-    wss_error_t err;
-
-    WSS_log_trace("Deleting session");
-
-    err = session_delete(session);
-
-    return err;
-}
-
 /**
  * Function that frees the allocated memory and removes the session from the 
  * hashtable.
@@ -403,13 +385,17 @@ wss_error_t WSS_session_is_disconnecting(wss_session_t *session, bool *dc) {
 }
 
 /**
- * Function that finds all sessions and calls callback for each of them.
+ * Function that finds all sessions and calls callback for each of them. A job
+ * has been registered on the session when the callback is called, and the
+ * callback must release it.
  *
  * @param   callback       [void (*callback)(wss_session_t *)]    "A callback to be called for each session"
  * @return                 [wss_error_t] 	                      "The error status"
  */
 wss_error_t WSS_session_all(void (*callback)(wss_session_t *)) {
     int err;
+    int *fds = NULL;
+    size_t i, count, length = 0;
     wss_session_t *session, *tmp;
 
     WSS_log_trace("Finding all sessions");
@@ -419,13 +405,28 @@ wss_error_t WSS_session_all(void (*callback)(wss_session_t *)) {
         return WSS_SESSION_LOCK_ERROR;
     }
 
+    count = HASH_COUNT(sessions);
+
+    if ( count > 0 && unlikely(NULL == (fds = WSS_malloc(count*sizeof(int)))) ) {
+        WSS_log_error("Unable to allocate memory for session filedescriptors");
+        pthread_rwlock_unlock(&lock);
+        return WSS_MEMORY_ERROR;
+    }
+
     HASH_ITER(hh, sessions, session, tmp) {
-        if ( likely(NULL != session) ) {
+        fds[length] = session->fd;
+        length++;
+    }
+
+    pthread_rwlock_unlock(&lock);
+
+    for (i = 0; likely(i < length); i++) {
+        if ( likely(NULL != (session = WSS_session_acquire(fds[i]))) ) {
             callback(session);
         }
     }
 
-    pthread_rwlock_unlock(&lock);
+    WSS_free((void **) &fds);
 
     return WSS_SUCCESS;
 }
diff --git a/src/ssl.c b/src/ssl.c
index 680024a..0608eaf 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -501,7 +501,7 @@ void WSS_ssl_write(wss_session_t *session, char *message, unsigned int message_l
 #elif defined(USE_WOLFSSL)
         n = wolfSSL_write(session->ssl, message+written, message_length-written);
 #endif
-        if (n < 0) {
+        if (n <= 0) {
             break;
         }
         written += n;
-- 
2.43.0


From 22fc0ad84213d110a6decb00ddac9081be515318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 10/49] fix: free the content and not the caller's pointer when
 strload fails

---
 src/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str.c b/src/str.c
index 5dfa0a2..107bbdc 100644
--- a/src/str.c
+++ b/src/str.c
@@ -114,14 +114,14 @@ size_t strload(char *path, char **str) {
     if ( unlikely(fread(*str, sizeof(char), size, file) != (unsigned long)size) ) {
         WSS_log_error("Didn't read what was expected");
         fclose(file);
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
     n = fclose(file);
     if ( unlikely(n != 0) ) {
         WSS_log_error("Unable to close file: %s", strerror(errno));
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
-- 
2.43.0


From 15ebeb2c88df97322f5137f0bc080cdb51b72c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 11/49] fix: hash the favicon into a buffer instead of through
 its first bytes

Any GET /favicon.ico crashed the server when a favicon was configured.
---
 src/worker.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 37d4265..22b8601 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -186,6 +186,7 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     size_t length;
     struct stat filestat;
     char sha1Key[SHA_DIGEST_LENGTH];
+    char *hash = sha1Key;
     char date[GMT_FORMAT_LENGTH];
     char modified[GMT_FORMAT_LENGTH];
     char savedlocale[256];
@@ -226,8 +227,13 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
         return NULL;
     }
 
+    if ( unlikely(icon <= 0) ) {
+        WSS_free((void **) &ico);
+        return NULL;
+    }
+
     // Generate etag from favicon content
-    WSS_sha1(ico, icon, (char **)&sha1Key);
+    WSS_sha1(ico, icon, &hash);
 
     // Convert etag binary values to hex values
     if ( unlikely(NULL == (etag = bin2hex((const unsigned char *)sha1Key, SHA_DIGEST_LENGTH))) ) {
@@ -253,13 +259,16 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     sprintf(message+line, HTTP_ICO_HEADERS, icon, date, WSS_SERVER_VERSION, etag, modified);
     memcpy(message+(line+headers), ico, icon);
 
-    msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t));
-    msg->msg = message;
-    msg->length = length;
-
     WSS_free((void **) &etag);
     WSS_free((void **) &ico);
 
+    if ( unlikely(NULL == (msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t)))) ) {
+        WSS_free((void **) &message);
+        return NULL;
+    }
+    msg->msg = message;
+    msg->length = length;
+
     return msg;
 }
 
-- 
2.43.0


From c50e7ea8b47ccc48b39923da2086fe3d73ddb217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 12/49] fix: put the supported versions after the status line
 of a 501 response

---
 src/worker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 22b8601..4d69b83 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -370,7 +370,7 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     body += strlen(exp)*sizeof(char);
 
     if (code == HttpStatus_NotImplemented) {
-        support = strlen(HTTP_WS_VERSION_HEADER)*sizeof(char)-6*sizeof(char);
+        support = snprintf(NULL, 0, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07);
     }
     headers += strlen(HTTP_HTML_HEADERS)*sizeof(char)-6*sizeof(char);
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
@@ -384,7 +384,7 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
 
     sprintf(message, HTTP_STATUS_LINE, version, code, reason);
     if (code == HttpStatus_NotImplemented) {
-        sprintf(message+support, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
+        sprintf(message+line, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
     }
     sprintf(message+support+line, HTTP_HTML_HEADERS, body, date, WSS_SERVER_VERSION);
     sprintf(message+support+line+headers, HTTP_BODY, code, reason, reason, exp);
-- 
2.43.0


From 612e4034b6be8719e5d02636b4159b82b4be3f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 13/49] fix: header fields without a value must not crash the
 parser

A header field without a value, an extension offer without a name or an
allocation failure while negotiating extensions made the parser dereference NULL,
leaked the negotiated parameters or left an extension opened.
---
 src/header.c | 178 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 126 insertions(+), 52 deletions(-)

diff --git a/src/header.c b/src/header.c
index b739fd3..451f766 100644
--- a/src/header.c
+++ b/src/header.c
@@ -69,8 +69,73 @@ static inline char *trim(char* str)
     return str;
 }
 
+/**
+ * Function that gives the value of the header field currently being parsed.
+ *
+ * @param   lineptr     [char **]   "The rest of the header line"
+ * @return              [char *]    "The value or NULL if the field has no value"
+ */
+static inline char *header_value(char **lineptr) {
+    char *value = strtok_r(NULL, "", lineptr);
+
+    return likely(NULL != value) ? value+1 : NULL;
+}
+
+/**
+ * Function that gives the first element of the comma separated list that is the
+ * value of the header field currently being parsed.
+ *
+ * @param   lineptr     [char **]   "The rest of the header line"
+ * @param   sepptr      [char **]   "Is set to the rest of the list"
+ * @return              [char *]    "The element or NULL if the field has no elements"
+ */
+static inline char *header_list(char **lineptr, char **sepptr) {
+    char *value = strtok_r(NULL, "", lineptr);
+
+    return likely(NULL != value) ? trim(strtok_r(value, ",", sepptr)) : NULL;
+}
+
+/**
+ * Function that adds a negotiated extension to the header. On success the name
+ * and accepted parameters of the extension are owned by the header.
+ *
+ * @param   header      [wss_header_t *]     "The header structure to fill"
+ * @param   ext         [wss_extension_t *]  "The negotiated extension"
+ * @param   name        [char *]             "The name of the extension"
+ * @param   accepted    [char *]             "The accepted parameters of the extension"
+ * @return              [bool]               "Whether the extension was added"
+ */
+static inline bool header_add_extension(wss_header_t *header, wss_extension_t *ext, char *name, char *accepted) {
+    wss_ext_t *element, **list;
+    size_t size = header->ws_extensions_count*sizeof(wss_ext_t *);
+
+    if ( unlikely(NULL == (element = WSS_malloc(sizeof(wss_ext_t)))) ) {
+        return false;
+    }
+
+    if ( unlikely(NULL == (list = WSS_malloc(size+sizeof(wss_ext_t *)))) ) {
+        WSS_free((void **) &element);
+        return false;
+    }
+
+    if ( unlikely(size != 0) ) {
+        memcpy(list, header->ws_extensions, size);
+        WSS_free((void **) &header->ws_extensions);
+    }
+
+    element->ext = ext;
+    element->name = name;
+    element->accepted = accepted;
+
+    list[header->ws_extensions_count] = element;
+    header->ws_extensions = list;
+    header->ws_extensions_count += 1;
+
+    return true;
+}
+
 static inline void header_set_version(wss_header_t *header, char *v) {
-    int version = strtol(strtok_r(NULL, "", &v), (char **) NULL, 10);
+    int version = strtol(v, (char **) NULL, 10);
 
     if ( likely(header->ws_version < version) ) {
         if ( unlikely(version == 4) ) {
@@ -214,6 +279,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
         if ( unlikely(header_size > config->size_header) ) {
             WSS_log_trace("Header size received is too large.");
+            WSS_free((void **)&exts);
             return HttpStatus_RequestHeaderFieldsTooLarge;
         }
 
@@ -226,10 +292,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 // The |Sec-WebSocket-Version| header field MUST NOT appear more than once in an HTTP request.
                 if ( unlikely(header->ws_version != 0) ) {
                     WSS_log_trace("Sec-WebSocket-Version must only appear once in header");
+                    WSS_free((void **)&exts);
                     return HttpStatus_BadRequest;
                 }
 
-                sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                sep = header_list(&lineptr, &sepptr);
                 while (NULL != sep) {
                     header_set_version(header, sep);
 
@@ -237,80 +304,83 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
             } else if ( line_length == strlen(UPGRADE_STRING) &&
                         strncasecmp(UPGRADE_STRING, line, line_length) == 0 ) {
-                header->ws_upgrade = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_upgrade = header_value(&lineptr);
             } else if ( line_length == strlen(ORIGIN_STRING) &&
                         strncasecmp(ORIGIN_STRING, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = header_value(&lineptr);
             } else if ( line_length == strlen(CONNECTION_STRING) &&
                         strncasecmp(CONNECTION_STRING, line, line_length) == 0 ) {
-                header->ws_connection = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_connection = header_value(&lineptr);
             } else if ( line_length == strlen(COOKIE_STRING) &&
                         strncasecmp(COOKIE_STRING, line, line_length) == 0 ) {
-                header->cookies = (strtok_r(NULL, "", &lineptr)+1);
+                header->cookies = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_PROTOCOL) &&
                         strncasecmp(SEC_WEBSOCKET_PROTOCOL, line, line_length) == 0 ) {
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
-                    if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
-                        header->ws_protocol = proto;
-                    } else {
-                        while (NULL != (sep = trim(strtok_r(NULL, ",", &sepptr)))) {
-                            if (NULL != (proto = WSS_find_subprotocol(sep))) {
-                                header->ws_protocol = proto;
-                                break;
-                            }
+                    sep = header_list(&lineptr, &sepptr);
+                    while (NULL != sep) {
+                        if (NULL != (proto = WSS_find_subprotocol(sep))) {
+                            header->ws_protocol = proto;
+                            break;
                         }
+                        sep = trim(strtok_r(NULL, ",", &sepptr));
                     }
                 }
             } else if ( line_length == strlen(SEC_WEBSOCKET_ORIGIN) &&
                         strncasecmp(SEC_WEBSOCKET_ORIGIN, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY) &&
                         strncasecmp(SEC_WEBSOCKET_KEY, line, line_length) == 0 ) {
                 //The |Sec-WebSocket-Key| header field MUST NOT appear more than once in an HTTP request.
                 if ( unlikely(header->ws_key != NULL) ) {
                     WSS_log_trace("Sec-WebSocket-Key must only appear once in header");
+                    WSS_free((void **)&exts);
                     return HttpStatus_BadRequest;
                 }
-                header->ws_key = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_EXTENSIONS) &&
                         strncasecmp(SEC_WEBSOCKET_EXTENSIONS, line, line_length) == 0 ) {
                 line = trim(strtok_r(NULL, "", &lineptr));
-                line_length = strlen(line);
-                if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+1)*sizeof(char))) ) {
-                    WSS_log_error("Unable to allocate space for extensions string");
-                    return HttpStatus_InternalServerError;
-                }
+                if ( likely(NULL != line && line[0] != '\0') ) {
+                    line_length = strlen(line);
+                    if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+2)*sizeof(char))) ) {
+                        WSS_log_error("Unable to allocate space for extensions string");
+                        return HttpStatus_InternalServerError;
+                    }
 
-                memcpy(exts+extensions_length, line, line_length);
-                extensions_length += line_length;
+                    // The header field may be split across multiple lines
+                    if ( unlikely(extensions_length != 0) ) {
+                        exts[extensions_length] = ',';
+                        extensions_length += 1;
+                    }
+
+                    memcpy(exts+extensions_length, line, line_length);
+                    extensions_length += line_length;
+                }
             } else if ( line_length == strlen(HOST_STRING) &&
                         strncasecmp(HOST_STRING, line, line_length) == 0 ) {
-                header->host = (strtok_r(NULL, "", &lineptr)+1);
+                header->host = header_value(&lineptr);
             } else if ( line_length == strlen(WEBSOCKET_PROTOCOL_STRING) &&
                         strncasecmp(WEBSOCKET_PROTOCOL_STRING, line, line_length) == 0 ) {
                 header->ws_type = HIXIE75;
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
-                    if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
-                        header->ws_protocol = proto;
-                    } else {
-                        while (NULL != (sep = trim(strtok_r(NULL, ",", &sepptr)))) {
-                            if (NULL != (proto = WSS_find_subprotocol(sep))) {
-                                header->ws_protocol = proto;
-                                break;
-                            }
+                    sep = header_list(&lineptr, &sepptr);
+                    while (NULL != sep) {
+                        if (NULL != (proto = WSS_find_subprotocol(sep))) {
+                            header->ws_protocol = proto;
+                            break;
                         }
+                        sep = trim(strtok_r(NULL, ",", &sepptr));
                     }
                 }
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY1) &&
                         strncasecmp(SEC_WEBSOCKET_KEY1, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key1 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key1 = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY2) &&
                         strncasecmp(SEC_WEBSOCKET_KEY2, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key2 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key2 = header_value(&lineptr);
             }
         }
 
@@ -320,6 +390,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
             if ( unlikely(strlen(tokenptr) > config->size_payload) ) {
                 WSS_log_trace("Payload size received is too large.");
+                WSS_free((void **)&exts);
                 return HttpStatus_PayloadTooLarge;
             }
 
@@ -333,6 +404,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 tokenptr++;
             } else if ( unlikely(tokenptr[0] != '\0') ) {
                 WSS_log_trace("Line shall always end with newline character");
+                WSS_free((void **)&exts);
                 return HttpStatus_BadRequest;
             }
         }
@@ -347,6 +419,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
     if ( !double_clrf ) {
         WSS_log_trace("Double CLRF required to distinguish between header and body");
+        WSS_free((void **)&exts);
         return HttpStatus_BadRequest;
     }
 
@@ -354,14 +427,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
         sep = trim(strtok_r(exts, ",", &sepptr));
         while(NULL != sep) {
             in_use = false;
+            valid = false;
+            accepted = NULL;
             sep = trim(strtok_r(sep, ";", &paramptr));
 
-            if ( NULL == (name = WSS_copy(sep, strlen(sep)+1)) ) {
-                WSS_log_error("Unable to allocate space for extension structure");
-                return HttpStatus_InternalServerError;
-            }
-
-            if (NULL != (ext = WSS_find_extension(name))) {
+            if ( likely(NULL != sep && NULL != (ext = WSS_find_extension(sep))) ) {
                 for (i = 0; i < header->ws_extensions_count; i++) {
                     if ( unlikely(header->ws_extensions[i]->ext == ext) ) {
                         in_use = true; 
@@ -370,21 +440,25 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
 
                 if ( likely(! in_use) ) {
+                    if ( NULL == (name = WSS_copy(sep, strlen(sep)+1)) ) {
+                        WSS_log_error("Unable to allocate space for extension structure");
+                        WSS_free((void **)&exts);
+                        return HttpStatus_InternalServerError;
+                    }
+
                     ext->open(fd, trim(paramptr), &accepted, &valid); 
                     if ( likely(valid) ) {
-                        if ( unlikely(NULL == (header->ws_extensions = WSS_realloc((void **) &header->ws_extensions, header->ws_extensions_count*sizeof(wss_ext_t *), (header->ws_extensions_count+1)*sizeof(wss_ext_t *)))) ) {
+                        if ( unlikely(! header_add_extension(header, ext, name, accepted)) ) {
                             WSS_log_error("Unable to allocate space for extension");
+                            ext->close(fd);
+                            WSS_free((void **)&accepted);
+                            WSS_free((void **)&name);
+                            WSS_free((void **)&exts);
                             return HttpStatus_InternalServerError;
                         }
-
-                        if ( unlikely(NULL == (header->ws_extensions[header->ws_extensions_count] = WSS_malloc(sizeof(wss_ext_t))))) {
-                            WSS_log_error("Unable to allocate space for extension structure");
-                            return HttpStatus_InternalServerError;
-                        }
-                        header->ws_extensions[header->ws_extensions_count]->ext = ext;
-                        header->ws_extensions[header->ws_extensions_count]->name = name;
-                        header->ws_extensions[header->ws_extensions_count]->accepted = accepted;
-                        header->ws_extensions_count += 1;
+                    } else {
+                        WSS_free((void **)&accepted);
+                        WSS_free((void **)&name);
                     }
                 }
             }
-- 
2.43.0


From d1e455764d3e204a15418508d97348bcde1796f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 14/49] fix: release the lock of permessage-deflate on every
 path and keep messages off the stack

The lock stayed held when a compressor could not be created. A whole message was
copied to the stack of the worker. A frame whose share of the message is empty was
left with a length but without a payload.
---
 .../permessage-deflate/permessage-deflate.c   | 200 ++++++++++--------
 1 file changed, 108 insertions(+), 92 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index dc4d66e..0db8fed 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -273,6 +273,90 @@ static bool init_comp(wss_comp_t *comp) {
     return true;
 }
 
+/**
+ * Initializes a compressor and makes it available to the session it belongs to.
+ * If that fails, the compressor is freed.
+ *
+ * @param 	comp	[wss_comp_t *]     "The compressor"
+ * @return 	        [bool]             "Whether the compressor is available"
+ */
+static bool add_comp(wss_comp_t *comp) {
+    if ( unlikely(! init_comp(comp)) ) {
+        allocs.free(comp);
+        return false;
+    }
+
+    if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
+        (void)inflateEnd(&comp->decompressor);
+        (void)deflateEnd(&comp->compressor);
+        allocs.free(comp);
+        return false;
+    }
+
+    HASH_ADD_INT(compressors, fd, comp);
+
+    pthread_mutex_unlock(&lock);
+
+    return true;
+}
+
+/**
+ * Collects the payload of a set of frames.
+ *
+ * @param 	frames	[wss_frame_t **]   "The frames"
+ * @param 	len	    [size_t]           "The amount of frames"
+ * @param 	length	[size_t]           "The length of the payload of the frames"
+ * @param 	extra	[size_t]           "The amount of bytes needed after the payload"
+ * @return 	        [char *]           "The payload or NULL if memory is not available"
+ */
+static char *join_frames(wss_frame_t **frames, size_t len, size_t length, size_t extra) {
+    size_t j, offset = 0;
+    char *payload = allocs.malloc((length+extra+1)*sizeof(char));
+
+    if ( likely(NULL != payload) ) {
+        for (j = 0; likely(j < len); j++) {
+            if ( likely(frames[j]->payloadLength > 0) ) {
+                memcpy(payload+offset, frames[j]->payload, frames[j]->payloadLength);
+                offset += frames[j]->payloadLength;
+            }
+        }
+        memset(payload+offset, '\0', length+extra+1-offset);
+    }
+
+    return payload;
+}
+
+/**
+ * Distributes a message over the same amount of frames as it was collected from.
+ *
+ * @param 	frames	[wss_frame_t **]   "The frames"
+ * @param 	len	    [size_t]           "The amount of frames"
+ * @param 	message	[char *]           "The message"
+ * @param 	length	[size_t]           "The length of the message"
+ * @return 	        [void]
+ */
+static void split_frames(wss_frame_t **frames, size_t len, char *message, size_t length) {
+    size_t j, size, offset = 0;
+
+    for (j = 0; likely(j < len); j++) {
+        size = likely(j+1 == len) ? length-offset : length/len;
+
+        allocs.free(frames[j]->payload);
+        frames[j]->payload = NULL;
+
+        if ( unlikely(size != 0 && NULL == (frames[j]->payload = allocs.malloc(size))) ) {
+            size = 0;
+        } else if ( likely(size != 0) ) {
+            memcpy(frames[j]->payload, message+offset, size);
+        }
+
+        offset += size;
+        frames[j]->extensionDataLength = 0;
+        frames[j]->applicationDataLength = size;
+        frames[j]->payloadLength = size;
+    }
+}
+
 /**
  * Event called when extension is initialized.
  *
@@ -414,11 +498,6 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
     const char *reg_str = "^(\\s*((server_no_context_takeover)|(client_no_context_takeover)|(server_max_window_bits\\s*=\\s*[0-9]+)|(client_max_window_bits(\\s*=\\s*[0-9]+)?))*\\s*;?\\s*)*$";
 
     if ( NULL == param ) {
-        if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
-            *valid = false;
-            return;
-        }
-
         if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
             *valid = false;
             return;
@@ -430,17 +509,7 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
         comp->params.client_no_context_takeover = default_client_no_context_takeover;
         comp->params.server_no_context_takeover = default_server_no_context_takeover;
 
-        if ( unlikely(! init_comp(comp)) ) {
-            allocs.free(comp);
-            *valid = false;
-            return;
-        }
-
-        HASH_ADD_INT(compressors, fd, comp);
-
-        pthread_mutex_unlock(&lock);
-
-        *valid = true;
+        *valid = add_comp(comp);
         return;
     }
     size_t params_length = strlen(param);
@@ -455,6 +524,8 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
     memcpy(buffer, param, params_length);
 
     err = regexec(&re, buffer, nmatch, matches, 0);
+    regfree(&re);
+
     if ( unlikely(err != 0) ) {
         *valid = false;
         return;
@@ -496,13 +567,6 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
         }
     }
 
-    regfree(&re);
-
-    if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
-        *valid = false;
-        return;
-    }
-
     if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
         *valid = false;
         return;
@@ -516,17 +580,7 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
 
     *accepted = negotiate(param, comp);
 
-    if ( unlikely(! init_comp(comp)) ) {
-        allocs.free(comp);
-        *valid = false;
-        return;
-    }
-
-    HASH_ADD_INT(compressors, fd, comp);
-
-    *valid = true;
-
-    pthread_mutex_unlock(&lock);
+    *valid = add_comp(comp);
 }
 
 /**
@@ -548,11 +602,11 @@ void inFrame(int fd, wss_frame_t *frame) {
  * @return 	          [void]
  */
 void inFrames(int fd, wss_frame_t **frames, size_t len) {
-    size_t j, size;
+    size_t j;
     char *message = NULL;
+    char *payload;
     size_t payload_length = 0;
     wss_comp_t *comp = NULL;
-    size_t current_length = 0;
     size_t message_length = 0;
     int flush_mask = Z_SYNC_FLUSH;
 
@@ -575,17 +629,13 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
     for (j = 0; likely(j < len); j++) {
         payload_length += frames[j]->payloadLength; 
     }
-    payload_length += 4;
 
-    char payload[payload_length+1];
-    payload[payload_length] = '\0';
-
-    for (j = 0; likely(j < len); j++) {
-        memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
-        current_length += frames[j]->payloadLength;
+    if ( unlikely(NULL == (payload = join_frames(frames, len, payload_length, 4))) ) {
+        return;
     }
 
-    memcpy(payload+current_length, "\x00\x00\xff\xff", 4);
+    memcpy(payload+payload_length, "\x00\x00\xff\xff", 4);
+    payload_length += 4;
 
     comp->decompressor.avail_in = payload_length;
     comp->decompressor.next_in = (unsigned char *)payload;
@@ -597,7 +647,7 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
     // Decompress data
     do {
         if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+1)*sizeof(char)))) ) {
-            allocs.free(message);
+            allocs.free(payload);
             return; 
         }
         memset(message+message_length, '\0', default_chunk_size+1); 
@@ -610,6 +660,7 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
             case Z_BUF_ERROR:
                 break;
             default:
+                allocs.free(payload);
                 allocs.free(message);
                 return;
         }
@@ -618,28 +669,12 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
 
     // unset rsv1 bit
     frames[0]->rsv1 = false;
-    current_length = 0;
 
     // Reallocate application data to contain the decompressed data in the same
     // amount of frames
-    for (j = 0; likely(j < len); j++) {
-        if ( likely(j+1 != len) ) {
-            size = message_length/len;
-        } else {
-            size = message_length-current_length;
-        }
-
-        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size))) ) {
-            allocs.free(message);
-            return;
-        }
-        memcpy(frames[j]->payload, message+current_length, size);
-        current_length += size;
-        frames[j]->extensionDataLength = 0;
-        frames[j]->applicationDataLength = size;
-        frames[j]->payloadLength = size;
-    }
+    split_frames(frames, len, message, message_length);
 
+    allocs.free(payload);
     allocs.free(message);
 }
 
@@ -662,10 +697,10 @@ void outFrame(int fd, wss_frame_t *frame) {
  * @return 	          [void]
  */
 void outFrames(int fd, wss_frame_t **frames, size_t len) {
-    size_t j, size;
+    size_t j;
     char *message = NULL;
+    char *payload;
     size_t payload_length = 0;
-    size_t current_length = 0;
     size_t message_length = 0;
     int flush_mask = Z_SYNC_FLUSH;
     wss_comp_t *comp;
@@ -690,12 +725,8 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
         payload_length += frames[j]->payloadLength; 
     }
 
-    char payload[payload_length+1];
-    payload[payload_length] = '\0';
-
-    for (j = 0; likely(j < len); j++) {
-        memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
-        current_length += frames[j]->payloadLength;
+    if ( unlikely(NULL == (payload = join_frames(frames, len, payload_length, 0))) ) {
+        return;
     }
 
     // https://github.com/madler/zlib/issues/149
@@ -709,7 +740,7 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
 
     do {
         if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
-            allocs.free(message);
+            allocs.free(payload);
             return; 
         }
         memset(message+message_length, '\0', default_chunk_size+2); 
@@ -722,6 +753,7 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
             case Z_BUF_ERROR:
                 break;
             default:
+                allocs.free(payload);
                 allocs.free(message);
                 return;
         }
@@ -733,7 +765,7 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
         flush_mask = Z_FULL_FLUSH;
 
         if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
-            allocs.free(message);
+            allocs.free(payload);
             return; 
         }
         memset(message+message_length, '\0', default_chunk_size+2); 
@@ -746,6 +778,7 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
             case Z_BUF_ERROR:
                 break;
             default:
+                allocs.free(payload);
                 allocs.free(message);
                 return;
         }
@@ -763,28 +796,11 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
     // set rsv1 bit
     frames[0]->rsv1 = true;
 
-    current_length = 0;
-
     // Reallocate application data to contain the compressed data in the same
     // amount of frames
-    for (j = 0; likely(j < len); j++) {
-        if ( likely(j+1 != len) ) {
-            size = message_length/len;
-        } else {
-            size = message_length-current_length;
-        }
-
-        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size))) ) {
-            allocs.free(message);
-            return;
-        }
-        memcpy(frames[j]->payload, message+current_length, size);
-        current_length += size;
-        frames[j]->extensionDataLength = 0;
-        frames[j]->applicationDataLength = size;
-        frames[j]->payloadLength = size;
-    }
+    split_frames(frames, len, message, message_length);
 
+    allocs.free(payload);
     allocs.free(message);
 }
 
-- 
2.43.0


From 826066d93ae0d87f9d7d2d4be10a2b2c6a7f9f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 15/49] fix: a frame length chosen by the client must not
 overflow the parser

Also free the frame when its payload cannot be allocated, use the continuation
opcode for all but the first frame of a message, and handle closing and ping frames
that cannot be created.
---
 src/frame.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index 534dbb1..b54e165 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -44,6 +44,11 @@
  */
 static char *random_bytes(int length) {
     char *res = WSS_malloc(length);
+
+    if ( unlikely(NULL == res) ) {
+        return NULL;
+    }
+
     /* Seed number for rand() */
     srand((unsigned int) time(0) + getpid());
 
@@ -317,15 +322,18 @@ wss_frame_t *WSS_parse_frame(char *payload, size_t length, size_t *offset) {
 
     frame->applicationDataLength = frame->payloadLength-frame->extensionDataLength;
     if ( likely(frame->applicationDataLength > 0) ) {
-        if ( likely(*offset+frame->applicationDataLength <= length) ) {
+        if ( likely(*offset <= length && frame->applicationDataLength <= length-*offset) ) {
             if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength))) ) {
                 WSS_log_error("Unable to allocate frame application data");
+                WSS_free_frame(frame);
                 return NULL;
             }
 
             memcpy(frame->payload, payload+*offset, frame->applicationDataLength);
         }
-        *offset += frame->applicationDataLength;
+
+        // The length is chosen by the client, thus it may be close to the maximum
+        *offset += MIN(frame->applicationDataLength, SIZE_MAX-*offset);
     }
 
     if ( likely(frame->mask && *offset <= length) ) {
@@ -516,7 +524,10 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
             code = CLOSE_NORMAL;
         }
 
-        frame = WSS_closing_frame(code, msg);
+        if ( unlikely(NULL == (frame = WSS_closing_frame(code, msg))) ) {
+            WSS_free((void **)fs);
+            return 0;
+        }
         frames[0] = frame;
         return 1;
     }
@@ -534,7 +545,7 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         }
 
         frame->fin = 0;
-        frame->opcode = opcode;
+        frame->opcode = likely(i == 0) ? opcode : CONTINUATION_FRAME;
         frame->mask = 0;
 
         frame->applicationDataLength = MIN(message_length-(config->size_frame*i), config->size_frame);
-- 
2.43.0


From 5c63c45147f0dde44fec6f55780021863333e558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 16/49] fix: never wait for the IO lock of another session
 while sending to it

A worker holds the IO lock of a session while the subprotocol handles a message of
it. Two clients broadcasting at the same time made two workers wait for each other
forever, and a client sending half a message made all senders to it wait. A message
that was only partially written by another thread was never completed. Extensions
processed messages to a session in another order than they were sent.
---
 include/session.h |  5 ++++
 include/worker.h  | 10 +++++++
 src/message.c     | 67 +++++++++++++++++++++++------------------------
 src/server.c      |  3 +++
 src/session.c     | 16 +++++++++++
 src/worker.c      | 30 +++++++++++++++++++++
 6 files changed, 97 insertions(+), 34 deletions(-)

diff --git a/include/session.h b/include/session.h
index 9c96189..704d289 100644
--- a/include/session.h
+++ b/include/session.h
@@ -15,6 +15,7 @@
 
 #include <time.h>
 #include <stdbool.h>
+#include <stdatomic.h>
 #include <pthread.h> 			/* pthread_create, pthread_t, pthread_attr_t
                                    pthread_mutex_init */
 #include "uthash.h"
@@ -61,6 +62,10 @@ typedef struct {
     pthread_mutex_t lock;
     // Attributes for the lock
     pthread_mutexattr_t lock_attr;
+    // Lock that ensures messages are put into the ringbuffer one at a time
+    pthread_mutex_t lock_send;
+    // Whether messages was put into the ringbuffer by a thread not using the session
+    atomic_bool pending;
     // Jobs to be performed
     int jobs;
     // Lock that ensures jobs are incremented/decremented atomically
diff --git a/include/worker.h b/include/worker.h
index 5c25c09..5806baf 100644
--- a/include/worker.h
+++ b/include/worker.h
@@ -111,6 +111,16 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session);
  */
 void WSS_write(wss_server_t *server, wss_session_t *session);
 
+/**
+ * Function that writes the messages that was put into the ringbuffer of a
+ * session by other threads.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @return          [void]
+ */
+void WSS_flush(wss_server_t *server, wss_session_t *session);
+
 /**
  * Function that performs and distributes the IO work.
  *
diff --git a/src/message.c b/src/message.c
index cc17aa7..17144f1 100644
--- a/src/message.c
+++ b/src/message.c
@@ -10,8 +10,6 @@
 #include "error.h"
 #include "predict.h"
 
-#include <time.h>
-
 void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_t frames_count) {
     size_t j, k;
     ssize_t off;
@@ -19,10 +17,23 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     uint64_t out_length;
     wss_message_t *m;
     ringbuf_worker_t *w = NULL;
-    struct timespec tim;
     wss_server_t *server = (wss_server_t *)serv;
     wss_session_t *session = (wss_session_t *)sess;
 
+    // The messages must be put into the ringbuffer in the same order as they
+    // are processed by the extensions
+    pthread_mutex_lock(&session->lock_send);
+
+    if ( unlikely(! session->handshaked) ) {
+        WSS_log_error("Unable to send message to session that is not handshaked");
+
+        pthread_mutex_unlock(&session->lock_send);
+
+        WSS_session_jobs_dec(session);
+
+        return;
+    }
+
     // Use extensions
     if ( NULL != session->header->ws_extensions ) {
         for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
@@ -40,6 +51,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
 
+        pthread_mutex_unlock(&session->lock_send);
+
         WSS_session_jobs_dec(session);
 
         return;
@@ -50,6 +63,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_free((void **) &out);
 
+        pthread_mutex_unlock(&session->lock_send);
+
         WSS_session_jobs_dec(session);
 
         return;
@@ -65,6 +80,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_message_free(m);
 
+        pthread_mutex_unlock(&session->lock_send);
+
         WSS_session_jobs_dec(session);
 
         return;
@@ -72,37 +89,14 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
     session->messages[off] = m;
     ringbuf_produce(session->ringbuf, &w);
-    tim.tv_sec = 0;
-    tim.tv_nsec = 100000000;
-
-    do {
-        pthread_mutex_lock(&session->lock);
-
-        switch (session->state) {
-        case READING:
-            pthread_mutex_unlock(&session->lock);
-            nanosleep(&tim, NULL);
-            break;
-        case CLOSING:
-            pthread_mutex_unlock(&session->lock);
-            WSS_session_jobs_dec(session);
-            return;
-        case CONNECTING:
-            pthread_mutex_unlock(&session->lock);
-            nanosleep(&tim, NULL);
-            break;
-        case WRITING:
-            pthread_mutex_unlock(&session->lock);
-            WSS_session_jobs_dec(session);
-            return;
-        case IDLE:
-            session->state = WRITING;
-            WSS_write(server, session);
-            pthread_mutex_unlock(&session->lock);
-            WSS_session_jobs_dec(session);
-            return;
-        }
-    } while (1);
+
+    pthread_mutex_unlock(&session->lock_send);
+
+    session->pending = true;
+
+    WSS_flush(server, session);
+
+    WSS_session_jobs_dec(session);
 }
 
 void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t message_length) {
@@ -124,6 +118,11 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
     WSS_log_trace("Creating frames");
 
     frames_count = WSS_create_frames(server->config, opcode, message, message_length, &frames);
+    if ( unlikely(0 == frames_count) ) {
+        WSS_log_error("Unable to create frames from message");
+        WSS_session_jobs_dec(session);
+        return;
+    }
 
     WSS_message_send_frames(server, session, frames, frames_count);
 
diff --git a/src/server.c b/src/server.c
index 3ef3b44..6f8412a 100644
--- a/src/server.c
+++ b/src/server.c
@@ -43,6 +43,7 @@ static inline void write_control_frame(wss_frame_t *frame, wss_session_t *sessio
     int fd = session->fd;
 
     // Use extensions
+    pthread_mutex_lock(&session->lock_send);
     for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
         session->header->ws_extensions[j]->ext->outframes(
                 fd,
@@ -53,6 +54,7 @@ static inline void write_control_frame(wss_frame_t *frame, wss_session_t *sessio
                 fd,
                 frame);
     }
+    pthread_mutex_unlock(&session->lock_send);
 
     if (0 == (message_length = WSS_stringify_frame(frame, &message))) {
         WSS_log_fatal("Unable to represent frame as bytes");
@@ -168,6 +170,7 @@ static void cleanup_session(wss_session_t *session) {
     if ( unlikely(closing) ) {
         WSS_disconnect(server, session);
     } else {
+        WSS_flush(server, session);
         WSS_session_jobs_dec(session);
     }
 }
diff --git a/src/session.c b/src/session.c
index d437162..fe1829a 100644
--- a/src/session.c
+++ b/src/session.c
@@ -121,6 +121,17 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
         return NULL;
     }
 
+    if ( unlikely((err = pthread_mutex_init(&session->lock_send, NULL)) != 0) ) {
+        WSS_log_error("Unable to initialize session send lock: %s", strerror(err));
+        pthread_mutex_destroy(&session->lock);
+        pthread_mutex_destroy(&session->lock_jobs);
+        pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_mutexattr_destroy(&session->lock_attr);
+        WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
+    }
+
     session->fd = fd;
     session->port = port;
     session->header = NULL;
@@ -131,6 +142,7 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
         pthread_mutex_destroy(&session->lock);
         pthread_mutex_destroy(&session->lock_jobs);
         pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_mutex_destroy(&session->lock_send);
         pthread_mutexattr_destroy(&session->lock_attr);
         WSS_free((void **) &session);
         pthread_rwlock_unlock(&lock);
@@ -167,6 +179,10 @@ static wss_error_t session_delete(wss_session_t *session) {
             err = WSS_SESSION_LOCK_DESTROY_ERROR;
         }
 
+        if ( unlikely((err = pthread_mutex_destroy(&session->lock_send)) != 0) ) {
+            err = WSS_SESSION_LOCK_DESTROY_ERROR;
+        }
+
         WSS_log_trace("Free ip string");
         WSS_free((void **) &session->ip);
 
diff --git a/src/worker.c b/src/worker.c
index 4d69b83..ca35953 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1424,6 +1424,35 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
     }
 }
 
+/**
+ * Function that writes the messages that was put into the ringbuffer of a
+ * session by other threads. The function never waits for a thread that is using
+ * the session, since that thread may be waiting for the calling thread. Instead,
+ * the thread using the session calls this function when it is done with it.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @return          [void]
+ */
+void WSS_flush(wss_server_t *server, wss_session_t *session) {
+    while ( session->pending && pthread_mutex_trylock(&session->lock) == 0 ) {
+        session->pending = false;
+
+        // If the session is in the middle of a write, the messages are written
+        // when it continues
+        if ( likely(session->state == IDLE || session->state == READING) ) {
+            session->state = WRITING;
+            WSS_write(server, session);
+
+            if ( unlikely(session->closing || session->event == WRITE) ) {
+                WSS_poll_set_write(server, session->fd);
+            }
+        }
+
+        pthread_mutex_unlock(&session->lock);
+    }
+}
+
 /**
  * Function that performs and distributes the IO work.
  *
@@ -1545,6 +1574,7 @@ void WSS_work(void *args) {
     if ( unlikely(closing) ) {
         WSS_disconnect(server, session);
     } else {
+        WSS_flush(server, session);
         WSS_session_jobs_dec(session);
     }
 }
-- 
2.43.0


From aa2c2c934228ccc20c18aac9b3a1df5755bb83e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 17/49] fix: a handshake always ends with a response or a
 closed session

A request that was split across packets was rejected, and a session was neither
armed nor closed when memory or the response was not available. Extensions of a
rejected request stayed open. The subprotocol was informed of a client whose
response could not be sent. The end of the input of the client was not detected.
---
 src/ssl.c    |   6 ++
 src/worker.c | 185 +++++++++++++++++++++++++++++++++++++++------------
 2 files changed, 147 insertions(+), 44 deletions(-)

diff --git a/src/ssl.c b/src/ssl.c
index 0608eaf..033881c 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -394,6 +394,12 @@ int WSS_ssl_read(wss_server_t *server, wss_session_t *session, char *buffer) {
         n = -1;
     } else 
         
+    // The client will not send anything more
+    if ( unlikely(err == SSL_ERROR_ZERO_RETURN) ) {
+        session->closing = true;
+        n = 0;
+    } else
+
     // If this was one of the error codes that we do accept, return 0
     if ( unlikely(n < 0) ) {
         n = 0;
diff --git a/src/worker.c b/src/worker.c
index ca35953..649f8b7 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -613,6 +613,9 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
                 } else {
                     n = 0;
                 }
+            // The client will not send anything more
+            } else if ( unlikely(n == 0) ) {
+                session->closing = true;
             }
             break;
         }
@@ -621,6 +624,44 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
     return n;
 }
 
+/**
+ * Responds to the HTTP request of the client. If that is not possible, the
+ * connection to the client is of no further use.
+ *
+ * @param 	server      [wss_server_t *] 	"A server instance"
+ * @param 	session     [wss_session_t *] 	"The client session"
+ * @param 	message     [wss_message_t *] 	"The response or NULL if it could not be created"
+ * @return              [void]
+ */
+static void respond(wss_server_t *server, wss_session_t *session, wss_message_t *message) {
+    if ( unlikely(NULL == message || WSS_SUCCESS != write_internal(session, message)) ) {
+        session->closing = true;
+        return;
+    }
+
+    session->state = WRITING;
+    session->event = READ;
+    WSS_write(server, session);
+}
+
+/**
+ * Frees the header of a rejected HTTP request and closes the extensions that
+ * was opened by it.
+ *
+ * @param 	session     [wss_session_t *] 	"The client session"
+ * @param 	header      [wss_header_t *] 	"The header of the request"
+ * @return              [void]
+ */
+static void reject_header(wss_session_t *session, wss_header_t *header) {
+    size_t j;
+
+    for (j = 0; j < header->ws_extensions_count; j++) {
+        header->ws_extensions[j]->ext->close(session->fd);
+    }
+
+    WSS_free_header(header);
+}
+
 /**
  * Performs a websocket handshake with the client session
  *
@@ -637,6 +678,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     if ( unlikely(NULL == (buffer = WSS_malloc(server->config->size_buffer)))) {
         WSS_log_fatal("Unable to allocate buffer");
+        session->closing = true;
         return;
     }
 
@@ -648,6 +690,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     } else {
         if ( unlikely(NULL == (header = WSS_malloc(sizeof(wss_header_t)))) ) {
             WSS_log_fatal("Unable to allocate header");
+            WSS_free((void **)&buffer);
+            session->closing = true;
             return;
         }
 
@@ -685,6 +729,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
                 session->event = WRITE;
 
+                WSS_free((void **)&buffer);
+
                 return;
             // An error occured, notify client by writing back to it
             case -1:
@@ -692,12 +738,10 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
                 message = http_response(header, HttpStatus_InternalServerError, "Unable to read from client");
                 WSS_free_header(header);
+                WSS_free((void **)&buffer);
 
-                if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                    session->state = WRITING;
-                    session->event = READ;
-                    WSS_write(server, session);
-                }
+                respond(server, session, message);
+                session->closing = true;
 
                 return;
             case 0:
@@ -706,6 +750,9 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 // Reallocate space for the header and copy buffer into it
                 if ( unlikely(NULL == (header->content = WSS_realloc((void **) &header->content, header->length*sizeof(char), (header->length+n+1)*sizeof(char)))) ) {
                     WSS_log_fatal("Unable to realloc header content");
+                    WSS_free_header(header);
+                    WSS_free((void **)&buffer);
+                    session->closing = true;
                     return;
                 }
                 memcpy(header->content+header->length, buffer, n);
@@ -720,12 +767,9 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                     message = http_response(header, HttpStatus_PayloadTooLarge,
                             "The given payload is too large for the server to handle");
                     WSS_free_header(header);
+                    WSS_free((void **)&buffer);
 
-                    if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                        session->state = WRITING;
-                        session->event = READ;
-                        WSS_write(server, session);
-                    }
+                    respond(server, session, message);
 
                     return;
                 }
@@ -735,6 +779,17 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     WSS_free((void **)&buffer);
 
+    // Wait for the rest of the header if it is split across multiple reads
+    if ( unlikely(! session->closing &&
+                (NULL == header->content || NULL == strstr(header->content, "\r\n\r\n"))) ) {
+        WSS_log_trace("Detected that data was missing in order to complete header, will wait for more");
+
+        session->header = header;
+        session->event = READ;
+
+        return;
+    }
+
     WSS_log_debug("Client header: \n%s", header->content);
 
     WSS_log_trace("Starting parsing header received from client");
@@ -745,13 +800,9 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         WSS_log_trace("Rejecting HTTP request due to header not being correct");
 
         message = http_response(header, code, (char *)HttpStatus_reasonPhrase(code));
-        WSS_free_header(header);
+        reject_header(session, header);
 
-        if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-            session->state = WRITING;
-            session->event = READ;
-            WSS_write(server, session);
-        }
+        respond(server, session, message);
 
         return;
     }
@@ -760,30 +811,18 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     if (strlen(header->path) == 12 && strncmp(header->path, "/favicon.ico", 12) == 0) {
         message = favicon_response(header, code, server->config);
         if (NULL != message) {
-            WSS_free_header(header);
-
             WSS_log_trace("Serving a favicon to the client");
-
-            // Find and serve favicon.
-            if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-                session->state = WRITING;
-                session->event = READ;
-                WSS_write(server, session);
-            }
         } else {
             WSS_log_trace("Rejecting HTTP request due to favicon not being available");
 
             // Else notify client that favicon could not be found
             code = HttpStatus_NotFound;
             message = http_response(header, code, (char *)HttpStatus_reasonPhrase(code));
-            WSS_free_header(header);
-
-            if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                session->state = WRITING;
-                session->event = READ;
-                WSS_write(server, session);
-            }
         }
+        reject_header(session, header);
+
+        // Find and serve favicon.
+        respond(server, session, message);
 
         return;
     }
@@ -827,13 +866,9 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     if (code != HttpStatus_SwitchingProtocols) {
         WSS_log_trace("Unable to establish websocket connection");
 
-        if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-            session->state = WRITING;
-            session->event = READ;
-            WSS_write(server, session);
-        }
+        reject_header(session, header);
 
-        WSS_free_header(header);
+        respond(server, session, message);
 
         return;
     }
@@ -843,18 +878,80 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         header->ws_protocol = WSS_find_subprotocol("echo");
     }
 
-    // Notify websocket protocol of the connection
-    header->ws_protocol->connect(session->fd, session->ip, session->port, header->path, header->cookies);
+    if ( unlikely(NULL == message || NULL == header->ws_protocol) ) {
+        WSS_log_error("Unable to complete websocket handshake");
+
+        WSS_message_free(message);
+        reject_header(session, header);
+
+        session->closing = true;
+
+        return;
+    }
+
+    // The response must be the first message that the client receives
+    pthread_mutex_lock(&session->lock_send);
+
+    if ( unlikely(WSS_SUCCESS != write_internal(session, message)) ) {
+        pthread_mutex_unlock(&session->lock_send);
+
+        reject_header(session, header);
+
+        session->closing = true;
+
+        return;
+    }
 
     // Set session as fully handshaked
     session->handshaked = true;
     session->header = header;
 
-    if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-        session->state = WRITING;
-        session->event = READ;
-        WSS_write(server, session);
+    pthread_mutex_unlock(&session->lock_send);
+
+    // Notify websocket protocol of the connection
+    header->ws_protocol->connect(session->fd, session->ip, session->port, header->path, header->cookies);
+
+    session->state = WRITING;
+    session->event = READ;
+    WSS_write(server, session);
+}
+
+/**
+ * Frees a list of frames.
+ *
+ * @param 	frames	[wss_frame_t **] 	"The frames"
+ * @param 	length	[size_t] 	        "The amount of frames"
+ * @return          [void]
+ */
+static void free_frames(wss_frame_t **frames, size_t length) {
+    size_t i;
+
+    for (i = 0; likely(i < length); i++) {
+        WSS_free_frame(frames[i]);
+    }
+    WSS_free((void **) &frames);
+}
+
+/**
+ * Writes a closing frame to the client and closes the session.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @param 	reason	[wss_close_t] 	    "The reason for the closure"
+ * @return          [void]
+ */
+static void close_session(wss_server_t *server, wss_session_t *session, wss_close_t reason) {
+    wss_frame_t *frame = WSS_closing_frame(reason, NULL);
+
+    if ( likely(NULL != frame) ) {
+        session->state = IDLE;
+
+        WSS_session_jobs_inc(session);
+        WSS_message_send_frames((void *)server, (void *)session, &frame, 1);
+        WSS_free_frame(frame);
     }
+
+    session->closing = true;
 }
 
 /**
-- 
2.43.0


From 888001bd11af59f0da467fbc5b3464ea4d06c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 18/49] fix: free the frames and close the session when reading
 from it fails

Also answer a frame that is too large without waiting for all of it.
---
 src/worker.c | 112 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 65 insertions(+), 47 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 649f8b7..1ba3d7d 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -969,13 +969,10 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     char *msg;
     bool closing = false;
     size_t offset = 0, prev_offset = 0;
-    wss_frame_t **frames = NULL;
+    wss_frame_t **frames = NULL, **list;
     char *payload = NULL;
     size_t payload_length = 0;
     size_t frames_length = 0;
-    char *message;
-    size_t message_length;
-    wss_message_t *m;
     size_t i, j, k;
     size_t msg_length = 0;
     size_t msg_offset = 0;
@@ -1022,33 +1019,23 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 WSS_log_trace("Detected that server needs further IO to complete the reading");
                 session->payload = payload;
                 session->payload_length = payload_length;
+                session->offset = offset;
+                session->frames = frames;
+                session->frames_length = frames_length;
 
                 session->event = WRITE;
 
+                WSS_free((void **) &buffer);
+
                 return;
             // An error occured
             case -1:
                 WSS_free((void **) &payload);
+                WSS_free((void **) &buffer);
+                free_frames(frames, frames_length);
 
-                frame = WSS_closing_frame(CLOSE_UNEXPECTED, NULL);
-                message_length = WSS_stringify_frame(frame, &message);
-                WSS_free_frame(frame);
-
-                if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
-                    WSS_log_error("Unable to allocate the message structure");
-                    WSS_free((void **) &message);
-                    session->closing = true;
-                    return;
-                }
-                m->msg = message;
-                m->length = message_length;
-                m->framed = true;
+                close_session(server, session, CLOSE_UNEXPECTED);
 
-                if ( likely(WSS_SUCCESS == write_internal(session, m)) ) {
-                    session->state = WRITING;
-                    session->event = READ;
-                    WSS_write(server, session);
-                }
                 return;
             // No new data received
             case 0:
@@ -1057,6 +1044,8 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             default:
                 if ( unlikely(NULL == (payload = WSS_realloc((void **) &payload, payload_length*sizeof(char), (payload_length+n+1)*sizeof(char)))) ) {
                     WSS_log_error("Unable to reallocate the payload");
+                    WSS_free((void **) &buffer);
+                    free_frames(frames, frames_length);
                     session->closing = true;
                     return;
                 }
@@ -1071,6 +1060,16 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     // Release memory used for buffer
     WSS_free((void **) &buffer);
 
+    if ( unlikely(0 == payload_length) ) {
+        WSS_log_trace("Nothing was read from client, will wait for more");
+
+        session->frames = frames;
+        session->frames_length = frames_length;
+        session->event = READ;
+
+        return;
+    }
+
     WSS_log_trace("Payload from client was read. Continues flow by parsing frames.");
 
     // Parse the payload into websocket frames
@@ -1080,12 +1079,14 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         if ( unlikely(NULL == (frame = WSS_parse_frame(payload, payload_length, &offset))) ) {
             WSS_log_trace("Unable to parse frame");
             WSS_free((void **) &payload);
+            free_frames(frames, frames_length);
             session->closing = true;
             return;
         }
 
-        // Check if we were forced to read beyond the payload to create a full frame
-        if ( unlikely(offset > payload_length) ) {
+        // Check if we were forced to read beyond the payload to create a full frame.
+        // There is no need to wait for the rest of a frame that is too large
+        if ( unlikely(offset > payload_length && frame->payloadLength <= server->config->size_frame) ) {
             WSS_log_trace("Detected that data was missing in order to complete frame, will wait for more");
 
             WSS_free_frame(frame);
@@ -1199,21 +1200,28 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             frame = WSS_pong_frame(frame);
         }
 
-        if ( unlikely(NULL == (frames = WSS_realloc((void **) &frames, frames_length*sizeof(wss_frame_t *),
-                        (frames_length+1)*sizeof(wss_frame_t *)))) ) {
+        // Check if frame count is exceeded
+        if ( unlikely(frames_length+1 > server->config->max_frames) ) {
+            WSS_free_frame(frame);
+            frame = WSS_closing_frame(CLOSE_BIG, NULL);
+        }
+
+        if ( unlikely(NULL == frame || NULL == (list = WSS_malloc((frames_length+1)*sizeof(wss_frame_t *)))) ) {
             WSS_log_error("Unable to reallocate frames");
+            WSS_free_frame(frame);
+            WSS_free((void **) &payload);
+            free_frames(frames, frames_length);
             session->closing = true;
             return;
         }
-        frames[frames_length] = frame;
-        frames_length += 1;
 
-        // Check if frame count is exceeded
-        if ( unlikely(frames_length > server->config->max_frames) ) {
-            WSS_free_frame(frame);
-            frame = WSS_closing_frame(CLOSE_BIG, NULL);
-            frames[frames_length-1] = frame;
+        if ( frames_length > 0 ) {
+            memcpy(list, frames, frames_length*sizeof(wss_frame_t *));
+            WSS_free((void **) &frames);
         }
+        frames = list;
+        frames[frames_length] = frame;
+        frames_length += 1;
 
         // Close
         if ( unlikely(frame->opcode == CLOSE_FRAME) ) {
@@ -1305,6 +1313,14 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         }
     }
 
+    // A closing frame that could not be created is always the last frame
+    if ( unlikely(frames_length > 0 && NULL == frames[frames_length-1]) ) {
+        WSS_log_error("Unable to create closing frame");
+        free_frames(frames, frames_length);
+        session->closing = true;
+        return;
+    }
+
     // If fragmented is still true, we did not receive the whole message, and
     // we hence want to wait until we get the rest.
     if ( unlikely(fragmented) ) {
@@ -1363,10 +1379,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             if ( unlikely(NULL == (msg = WSS_malloc((msg_length+1)*sizeof(char)))) ) {
                 WSS_log_error("Unable to allocate message");
 
-                for (k = 0; likely(k < frames_length); k++) {
-                    WSS_free_frame(frames[k]);
-                }
-                WSS_free((void **) &frames);
+                free_frames(frames, frames_length);
 
                 session->closing = true;
 
@@ -1394,6 +1407,11 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 WSS_free((void **) &msg);
                 msg_length = 0;
                 closing = true;
+
+                if ( unlikely(NULL == frames[starting_frame]) ) {
+                    WSS_log_error("Unable to create closing frame");
+                    break;
+                }
             }
 
             if ( likely(frames[starting_frame]->opcode == TEXT_FRAME || frames[starting_frame]->opcode == BINARY_FRAME) ) {
@@ -1414,16 +1432,16 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         }
     }
 
-    if ( likely(frames_length > 0) ) {
-        for (i = 0; likely(i < frames_length); i++) {
-            WSS_free_frame(frames[i]);
-        }
-        WSS_free((void **) &frames);
-    }
+    free_frames(frames, frames_length);
 
-    if (! closing && session->event == NONE) {
-        WSS_log_trace("Set epoll file descriptor to read mode after finishing read");
-        session->event = READ;
+    if (session->event == NONE) {
+        if ( unlikely(closing) ) {
+            // If the closing frame is not about to be written, it never will be
+            session->closing = true;
+        } else {
+            WSS_log_trace("Set epoll file descriptor to read mode after finishing read");
+            session->event = READ;
+        }
     }
 }
 
@@ -1461,7 +1479,7 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
             while ( likely(bytes_sent < message_length) ) {
                 // Check if message contains closing byte
                 if ( unlikely(message->framed && bytes_sent == 0 &&
-                     ((message->msg[0] & 0xF) & 0x8) == (message->msg[0] & 0xF)) ) {
+                     (message->msg[0] & 0xF) == CLOSE_FRAME) ) {
                     closing = true;
                 }
 
-- 
2.43.0


From 662f8372522878dc1940e215a596a7a82592ca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 19/49] fix: release the lock of the thread pool before it is
 destroyed and on every exit

---
 src/pool.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/pool.c b/src/pool.c
index 7ac6527..b5f9181 100644
--- a/src/pool.c
+++ b/src/pool.c
@@ -138,11 +138,17 @@ threadpool_t *threadpool_create(int thread_count, int queue_size,
     pool->threads = (pthread_t *) WSS_malloc(sizeof(pthread_t) * thread_count);
     pool->queue = (threadpool_task_t *) WSS_malloc(sizeof(threadpool_task_t) * queue_size);
 
+    if ( (pool->threads == NULL) || (pool->queue == NULL) ) {
+        goto err;
+    }
+
     /* Initialize mutex and conditional variable first */
-    if ( (pthread_mutex_init(&(pool->lock), NULL) != 0) ||
-            (pthread_cond_init(&(pool->notify), NULL) != 0) ||
-            (pool->threads == NULL) ||
-            (pool->queue == NULL)) {
+    if (pthread_mutex_init(&(pool->lock), NULL) != 0) {
+        goto err;
+    }
+
+    if (pthread_cond_init(&(pool->notify), NULL) != 0) {
+        pthread_mutex_destroy(&(pool->lock));
         goto err;
     }
 
@@ -161,7 +167,10 @@ threadpool_t *threadpool_create(int thread_count, int queue_size,
 
 err:
     if (pool) {
-        threadpool_free(pool);
+        pthread_attr_destroy(&pool->attr);
+        WSS_free((void **) &pool->threads);
+        WSS_free((void **) &pool->queue);
+        WSS_free((void **) &pool);
     }
     return NULL;
 }
@@ -232,6 +241,7 @@ int threadpool_destroy(threadpool_t *pool, int flags) {
         /* Already shutting down */
         if (pool->shutdown) {
             err = threadpool_shutdown;
+            pthread_mutex_unlock(&(pool->lock));
             break;
         }
 
@@ -239,8 +249,13 @@ int threadpool_destroy(threadpool_t *pool, int flags) {
             graceful_shutdown : immediate_shutdown;
 
         /* Wake up all worker threads */
-        if ( (pthread_cond_broadcast(&(pool->notify)) != 0) ||
-                (pthread_mutex_unlock(&(pool->lock)) != 0) ) {
+        if (pthread_cond_broadcast(&(pool->notify)) != 0) {
+            err = threadpool_lock_failure;
+            pthread_mutex_unlock(&(pool->lock));
+            break;
+        }
+
+        if (pthread_mutex_unlock(&(pool->lock)) != 0) {
             err = threadpool_lock_failure;
             break;
         }
@@ -271,10 +286,12 @@ int threadpool_free(threadpool_t *pool) {
         WSS_free((void **) &pool->threads);
         WSS_free((void **) &pool->queue);
 
-        /* Because we allocate pool->threads after initializing the
-           mutex and condition variable, we're sure they're
-           initialized. Let's lock the mutex just in case. */
+        /* Because threadpool_create only succeeds with an initialized mutex
+           and condition variable, we're sure they're initialized. Let's lock
+           the mutex just in case some thread is about to release it. A locked
+           mutex must not be destroyed. */
         pthread_mutex_lock(&(pool->lock));
+        pthread_mutex_unlock(&(pool->lock));
         pthread_mutex_destroy(&(pool->lock));
         pthread_cond_destroy(&(pool->notify));
     }
-- 
2.43.0


From a19e09d9d1d7acb06579afa425310a109c51eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 20/49] fix: retry adding to a full thread pool and free the
 arguments when it fails

---
 src/event.c | 69 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/event.c b/src/event.c
index b914dac..460d0c2 100644
--- a/src/event.c
+++ b/src/event.c
@@ -103,41 +103,39 @@ wss_error_t WSS_add_to_threadpool(wss_server_t *server, void (*func)(void *), vo
     tim.tv_sec = 0;
     tim.tv_nsec = 100000000;
 
-    do {
-        if ( unlikely((err = threadpool_add(server->pool, func, args, 0)) != 0) ) {
-            switch (err) {
-                case threadpool_invalid:
-                    WSS_log_fatal("Threadpool was served with invalid data");
-                    return WSS_THREADPOOL_INVALID_ERROR;
-                case threadpool_lock_failure:
-                    WSS_log_fatal("Locking in thread failed");
-                    return WSS_THREADPOOL_LOCK_ERROR;
-                case threadpool_queue_full:
-                    if ( likely(retries < server->config->pool_retries) ) {
-                        retries += 1;
-                        WSS_log_trace("Threadpool full, will retry shortly. Retry number: %d", retries);
-                        nanosleep(&tim, NULL);
-                        continue;
-                    }
+    while ( unlikely((err = threadpool_add(server->pool, func, args, 0)) != 0) ) {
+        switch (err) {
+            case threadpool_invalid:
+                WSS_log_fatal("Threadpool was served with invalid data");
+                return WSS_THREADPOOL_INVALID_ERROR;
+            case threadpool_lock_failure:
+                WSS_log_fatal("Locking in thread failed");
+                return WSS_THREADPOOL_LOCK_ERROR;
+            case threadpool_queue_full:
+                if ( likely(retries < server->config->pool_retries) ) {
+                    retries += 1;
+                    WSS_log_trace("Threadpool full, will retry shortly. Retry number: %d", retries);
+                    nanosleep(&tim, NULL);
+                    continue;
+                }
 
-                    // Currently we treat a full threadpool as an error, but
-                    // we could try to handle this by dynamically increasing size
-                    // of threadpool, and maybe reset thread count to that of the
-                    // configuration when the hot load is over
-                    WSS_log_error("Threadpool queue is full");
-                    return WSS_THREADPOOL_FULL_ERROR;
-                case threadpool_shutdown:
-                    WSS_log_error("Threadpool is shutting down");
-                    return WSS_THREADPOOL_SHUTDOWN_ERROR;
-                case threadpool_thread_failure:
-                    WSS_log_fatal("Threadpool thread return an error");
-                    return WSS_THREADPOOL_THREAD_ERROR;
-                default:
-                    WSS_log_fatal("Unknown error occured with threadpool");
-                    return WSS_THREADPOOL_ERROR;
-            }
+                // Currently we treat a full threadpool as an error, but
+                // we could try to handle this by dynamically increasing size
+                // of threadpool, and maybe reset thread count to that of the
+                // configuration when the hot load is over
+                WSS_log_error("Threadpool queue is full");
+                return WSS_THREADPOOL_FULL_ERROR;
+            case threadpool_shutdown:
+                WSS_log_error("Threadpool is shutting down");
+                return WSS_THREADPOOL_SHUTDOWN_ERROR;
+            case threadpool_thread_failure:
+                WSS_log_fatal("Threadpool thread return an error");
+                return WSS_THREADPOOL_THREAD_ERROR;
+            default:
+                WSS_log_fatal("Unknown error occured with threadpool");
+                return WSS_THREADPOOL_ERROR;
         }
-    } while (0);
+    }
 
     return WSS_SUCCESS;
 }
@@ -444,6 +442,7 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
             err = WSS_add_to_threadpool(server, &WSS_work, (void *)args);
             if ( unlikely(err != WSS_SUCCESS) ) {
                 WSS_log_fatal("Failed adding connect job to worker pool");
+                WSS_free((void **)&args);
                 return err;
             }
         } else if ( unlikely(fd == close_pipefd[0]) ) {
@@ -516,6 +515,7 @@ static inline wss_error_t WSS_poll_add(int poll_fd, int fd, uint32_t events) {
     WSS_log_trace("Modifying filedescriptor on epoll eventlist");
 
     do {
+        errno = 0;
         memset(&event, 0, sizeof(event));
 
         event.events = events;
@@ -695,6 +695,7 @@ wss_error_t WSS_poll_remove(wss_server_t *server, int fd) {
     WSS_log_trace("Removing session %d from epoll events", fd);
 
     do {
+        errno = 0;
         memset(&event, 0, sizeof(event));
 
         event.events = EPOLLIN | EPOLLOUT;
@@ -785,6 +786,7 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
              */
             if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
                 WSS_log_fatal("Failed adding connect job to worker pool");
+                WSS_free((void **)&args);
                 return err;
             }
         } else if ( unlikely(events[i].data.fd == close_pipefd[0]) ) {
@@ -1112,6 +1114,7 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
                  */
                 if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
                     WSS_log_fatal("Failed adding connect job to worker pool");
+                    WSS_free((void **)&args);
                     return err;
                 }
             } else if ( unlikely(fd == close_pipefd[0]) ) {
-- 
2.43.0


From 830c7504e72caa0a32e3d2de5a18cbcc0a5ff7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 21/49] fix: the Cython init symbol is named after the module
 and must fit its buffer

---
 src/extensions.c   | 4 ++--
 src/subprotocols.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extensions.c b/src/extensions.c
index 456760f..2f17450 100644
--- a/src/extensions.c
+++ b/src/extensions.c
@@ -140,8 +140,8 @@ void WSS_load_extensions(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
-        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
+        sprintf(pyname, "PyInit_%.*s", name_length, name); 
+        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, pyname)) != NULL) ) {
             proto->pyinit(); 
         }
         WSS_free((void **) &pyname);
diff --git a/src/subprotocols.c b/src/subprotocols.c
index f4dfc96..8cd9a8d 100644
--- a/src/subprotocols.c
+++ b/src/subprotocols.c
@@ -130,8 +130,8 @@ void WSS_load_subprotocols(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
-        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
+        sprintf(pyname, "PyInit_%.*s", name_length, name); 
+        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, pyname)) != NULL) ) {
             proto->pyinit(); 
         }
         WSS_free((void **) &pyname);
-- 
2.43.0


From 98f2134220390f5bcf588df305f2e7f0337d3a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 22/49] fix: stop the running server when starting the server
 fails, and initialise its lock

---
 src/server.c | 80 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 22 deletions(-)

diff --git a/src/server.c b/src/server.c
index 6f8412a..65bddfd 100644
--- a/src/server.c
+++ b/src/server.c
@@ -284,7 +284,7 @@ void *WSS_server_run(void *arg) {
 #ifdef USE_RPMALLOC
             rpmalloc_thread_finalize();
 #endif
-            pthread_exit( ((void *) err) );
+            pthread_exit( ((void *) ((uintptr_t)err)) );
         }
     }
 
@@ -364,6 +364,24 @@ static int WSS_server_free(wss_server_t *server) {
     return result;
 }
 
+/**
+ * Stops a server that is already running and frees all memory it has allocated
+ *
+ * @return 	        [void]
+ */
+static void WSS_server_abort(wss_server_t *server) {
+    WSS_server_set_state(HALT_ERROR);
+
+    if ( likely(close_pipefd[1] != -1) && unlikely(write(close_pipefd[1], "HALT", 5) < 0) ) {
+        WSS_log_fatal("Unable to write halting message through pipe");
+    }
+
+    pthread_join(server->thread_id, NULL);
+    WSS_poll_close(server);
+    WSS_server_free(server);
+    WSS_session_delete_all();
+}
+
 /**
  * Starts the websocket server.
  *
@@ -372,6 +390,7 @@ static int WSS_server_free(wss_server_t *server) {
  */
 int WSS_server_start(wss_config_t *config) {
     int err;
+    void *res;
     struct rlimit limits;
     struct sigaction sa;
     int ret = EXIT_SUCCESS;
@@ -387,7 +406,7 @@ int WSS_server_start(wss_config_t *config) {
     }
 
     if ( getrlimit(RLIMIT_NOFILE, &limits) < 0 ) {
-        WSS_log_fatal("Failed to get kernel file descriptor limits: %s", strerror(err));
+        WSS_log_fatal("Failed to get kernel file descriptor limits: %s", strerror(errno));
 
         return EXIT_FAILURE;
     }
@@ -396,7 +415,7 @@ int WSS_server_start(wss_config_t *config) {
     limits.rlim_cur = limits.rlim_max;
 
     if ( setrlimit(RLIMIT_NOFILE, &limits) < 0 ) {
-        WSS_log_fatal("Failed to set kernel file descriptor limits: %s", strerror(err));
+        WSS_log_fatal("Failed to set kernel file descriptor limits: %s", strerror(errno));
 
         return EXIT_FAILURE;
     }
@@ -507,11 +526,15 @@ int WSS_server_start(wss_config_t *config) {
     servers.https = NULL;
 
     if ( unlikely(0 != (err = pthread_mutex_init(&http->lock, NULL))) ) {
-        WSS_server_free(http);
+        WSS_log_fatal("Failed initializing http server lock: %s", strerror(err));
+
+        WSS_free((void **) &http);
         WSS_session_destroy_lock();
         WSS_destroy_subprotocols();
         WSS_destroy_extensions();
         pthread_mutex_destroy(&state.lock);
+
+        return EXIT_FAILURE;
     }
 
     WSS_log_trace("Setting to running state");
@@ -538,7 +561,7 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("Allocating memory for HTTPS instance");
 
         if ( unlikely(NULL == (https = (wss_server_t *) WSS_malloc(sizeof(wss_server_t)))) ) {
-            WSS_server_free(http);
+            WSS_server_abort(http);
             WSS_session_destroy_lock();
             WSS_destroy_subprotocols();
             WSS_destroy_extensions();
@@ -549,15 +572,30 @@ int WSS_server_start(wss_config_t *config) {
             return EXIT_FAILURE;
         }
 
+        if ( unlikely(0 != (err = pthread_mutex_init(&https->lock, NULL))) ) {
+            WSS_free((void **) &https);
+            WSS_server_abort(http);
+            WSS_session_destroy_lock();
+            WSS_destroy_subprotocols();
+            WSS_destroy_extensions();
+            pthread_mutex_destroy(&state.lock);
+
+            WSS_log_fatal("Failed initializing https server lock: %s", strerror(err));
+
+            return EXIT_FAILURE;
+        }
+
         servers.https = https;
 
         WSS_log_trace("Creating HTTPS Instance");
 
-        https->config = config;
-        https->port   = config->port_https;
+        https->config  = config;
+        https->port    = config->port_https;
+        https->fd      = -1;
+        https->poll_fd = -1;
         if ( unlikely(WSS_SUCCESS != WSS_http_ssl(https)) ) {
             WSS_server_free(https);
-            WSS_server_free(http);
+            WSS_server_abort(http);
             WSS_session_destroy_lock();
             WSS_destroy_subprotocols();
             WSS_destroy_extensions();
@@ -570,7 +608,7 @@ int WSS_server_start(wss_config_t *config) {
 
         if ( unlikely(WSS_SUCCESS != WSS_http_server(https)) ) {
             WSS_server_free(https);
-            WSS_server_free(http);
+            WSS_server_abort(http);
             WSS_session_destroy_lock();
             WSS_destroy_subprotocols();
             WSS_destroy_extensions();
@@ -585,10 +623,10 @@ int WSS_server_start(wss_config_t *config) {
     WSS_log_trace("Creating HTTP cleanup thread");
     
     if ( unlikely(pthread_create(&cleanup_thread_id, NULL, WSS_cleanup, NULL) != 0) ) {
+        WSS_server_abort(http);
         if (ssl) {
-            WSS_server_free(https);
+            WSS_server_abort(https);
         }
-        WSS_server_free(http);
         WSS_session_destroy_lock();
         WSS_destroy_subprotocols();
         WSS_destroy_extensions();
@@ -600,34 +638,32 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_log_trace("Joining server threads");
 
-    pthread_join(cleanup_thread_id, (void **) &err);
-    if ( unlikely(WSS_SUCCESS != err) ) {
-        WSS_log_error("Cleanup thread returned with error: %s", strerror(err));
+    pthread_join(cleanup_thread_id, &res);
+    if ( unlikely(WSS_SUCCESS != (uintptr_t) res) ) {
+        WSS_log_error("Cleanup thread returned with error: %d", (int) (uintptr_t) res);
         WSS_server_set_state(HALT_ERROR);
     }
 
     WSS_log_trace("Cleanup thread has shutdown");
 
-    pthread_join(http->thread_id, (void **) &err);
-    if ( unlikely(WSS_SUCCESS != err) ) {
-        WSS_log_error("HTTP Server thread returned with error: %s", strerror(err));
+    pthread_join(http->thread_id, &res);
+    if ( unlikely(WSS_SUCCESS != (uintptr_t) res) ) {
+        WSS_log_error("HTTP Server thread returned with error: %d", (int) (uintptr_t) res);
         WSS_server_set_state(HALT_ERROR);
     }
 
     WSS_log_trace("HTTP server thread has shutdown");
 
     if (ssl) {
-        pthread_join(https->thread_id, (void **) &err);
-        if ( unlikely(WSS_SUCCESS != err) ) {
-            WSS_log_error("HTTPS Server thread returned with error: %s", strerror(err));
+        pthread_join(https->thread_id, &res);
+        if ( unlikely(WSS_SUCCESS != (uintptr_t) res) ) {
+            WSS_log_error("HTTPS Server thread returned with error: %d", (int) (uintptr_t) res);
             WSS_server_set_state(HALT_ERROR);
         }
 
         WSS_log_trace("HTTPS server thread has shutdown");
     }
 
-    pthread_join(http->thread_id, (void **) &err);
-
     if ( unlikely(WSS_poll_close(http) != WSS_SUCCESS) ) {
         WSS_server_set_state(HALT_ERROR);
     }
-- 
2.43.0


From 501d5f90bfe5876ef8fe2bbec679f79b59299066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:15 +0000
Subject: [PATCH 23/49] fix: configuration rejected while loading freed strings
 owned by the JSON document

---
 include/config.h |  1 +
 src/config.c     | 20 ++++----------------
 2 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/include/config.h b/include/config.h
index 73dcaf7..d14485c 100644
--- a/include/config.h
+++ b/include/config.h
@@ -10,6 +10,7 @@ typedef struct {
     char *string;
     size_t length;
     char **hosts;
+    char *hosts_ports;
     char **paths;
     char **queries;
     char **origins;
diff --git a/src/config.c b/src/config.c
index d7d3938..76c75ce 100644
--- a/src/config.c
+++ b/src/config.c
@@ -52,6 +52,7 @@ static wss_error_t config_add_port_to_hosts(wss_config_t *config) {
         WSS_config_free(config);
         return WSS_MEMORY_ERROR;
     }
+    config->hosts_ports = extra;
 
     if ( likely(config->port_http > 0) ) {
         for (i = 0; likely(i < hosts_length); i++) {
@@ -113,7 +114,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
 
     config->length = strload(path, &config->string);
     if ( unlikely(NULL == config->string) ) {
-        WSS_log_error("Unable to load JSON file: %s", error);
+        WSS_log_error("Unable to load JSON file");
         WSS_config_free(config);
         return WSS_CONFIG_LOAD_ERROR;
     }
@@ -595,22 +596,8 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
  * @return 			[wss_error_t]       "The error status"
  */
 wss_error_t WSS_config_free(wss_config_t *config) {
-    unsigned int amount = 1;
-
     if ( likely(NULL != config) ) {
-        if ( likely(config->port_http > 0) ) {
-            amount++;
-        }
-
-        if ( likely(config->port_https > 0) ) {
-            amount++;
-        }
-
-        if ( likely(amount > 1) ) {
-            if ( NULL != config->hosts ) {
-                WSS_free((void **)&config->hosts[(config->hosts_length/amount)*(amount-1)]);
-            }
-        }
+        WSS_free((void **) &config->hosts_ports);
 
         if ( likely(NULL != config->data) ) {
             json_value_free_ex(&settings, config->data);
@@ -620,6 +607,7 @@ wss_error_t WSS_config_free(wss_config_t *config) {
         WSS_free((void **) &config->string);
         WSS_free((void **) &config->hosts);
         WSS_free((void **) &config->origins);
+        WSS_free((void **) &config->paths);
         WSS_free((void **) &config->queries);
         WSS_free((void **) &config->extensions);
         WSS_free((void **) &config->subprotocols);
-- 
2.43.0


From 17d4da26e09e7cca19ee750b7144fc3a6dfdfddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 24/49] fix: plugin configuration was freed uninitialised when
 the server did not start

---
 src/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.c b/src/main.c
index 59effd9..03b4f6b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -56,13 +56,16 @@ int main(int argc, char *argv[]) {
     // Default values
     config.subprotocols         = NULL;
     config.subprotocols_length  = 0;
+    config.subprotocols_config  = NULL;
     config.extensions           = NULL;
     config.extensions_length    = 0;
+    config.extensions_config    = NULL;
     config.favicon              = NULL;
     config.origins              = NULL;
     config.origins_length       = 0;
     config.hosts                = NULL;
     config.hosts_length         = 0;
+    config.hosts_ports          = NULL;
     config.paths                = NULL;
     config.paths_length         = 0;
     config.queries              = NULL;
-- 
2.43.0


From cbb4ade1acae8d7e9fc7fbd640dc53fc1ea07b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 25/49] fix: accepting several clients at once overflowed the
 stack

---
 src/worker.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 1ba3d7d..48617d3 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -463,7 +463,8 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
  */
 void WSS_connect(wss_server_t *server) {
     int client_fd;
-    struct sockaddr_in client;
+    struct sockaddr_in6 client;
+    char ip[INET6_ADDRSTRLEN];
     size_t ringbuf_obj_size;
     socklen_t client_size;
     wss_session_t *session;
@@ -471,10 +472,12 @@ void WSS_connect(wss_server_t *server) {
     bool closing;
     size_t workers = server->config->pool_workers+1;
 
-    client_size	= sizeof(client);
     memset((char *) &client, '\0', sizeof(client));
 
     while (1) {
+        // The size is changed by accept
+        client_size = sizeof(client);
+
         if ( (client_fd = accept(server->fd, (struct sockaddr *) &client,
                         &client_size)) < 0 ) {
             if ( likely(EAGAIN == errno || EWOULDBLOCK == errno) ) {
@@ -491,8 +494,13 @@ void WSS_connect(wss_server_t *server) {
 
         WSS_log_trace("Client filedescriptor was set to non-blocking");
 
-        if ( unlikely(NULL == (session = WSS_session_add(client_fd,
-                        inet_ntoa(client.sin_addr), ntohs(client.sin_port)))) ) {
+        if ( unlikely(NULL == inet_ntop(AF_INET6, &client.sin6_addr, ip, sizeof(ip))) ) {
+            WSS_log_error("Unable to convert address of client: %s", strerror(errno));
+            close(client_fd);
+            continue;
+        }
+
+        if ( unlikely(NULL == (session = WSS_session_add(client_fd, ip, ntohs(client.sin6_port)))) ) {
             close(client_fd);
             continue;
         }
-- 
2.43.0


From 4d705e953281fde7bb8f935e6fe45aa64d37902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 26/49] fix: handshake response with several extensions, or one
 without parameters, ended with NUL bytes

---
 src/worker.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 48617d3..5e0c922 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -87,11 +87,14 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
         for (j = 0; likely(j < header->ws_extensions_count); j++) {
             headers += (strlen(header->ws_extensions[j]->name))*sizeof(char);
             if ( likely(NULL != header->ws_extensions[j]->accepted) ) {
+                headers += sizeof(char);
                 headers += strlen(header->ws_extensions[j]->accepted)*sizeof(char);
             }
-            headers += 2*sizeof(char);
+            if ( likely(j+1 != header->ws_extensions_count) ) {
+                headers += sizeof(char);
+            }
         }
-        headers += (header->ws_extensions_count)*sizeof(char);
+        headers += 2*sizeof(char);
     }
     
     if ( NULL != header->ws_protocol ) {
-- 
2.43.0


From b1bc12f8219fa8acc74424bd3bfb72d6855ff83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 27/49] fix: HTTP responses ended with a NUL byte beyond their
 Content-Length

---
 src/worker.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 5e0c922..acc3935 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -251,8 +251,8 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     headers += strlen(etag)*sizeof(char);
     headers += strlen(modified)*sizeof(char);
 
-    length = line + headers + icon + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + headers + icon;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         WSS_free((void **) &etag);
         WSS_free((void **) &ico);
         return NULL;
@@ -307,8 +307,8 @@ static wss_message_t *upgrade_response(wss_header_t *header, enum HttpStatus_Cod
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
     headers += (log10(body)+1)*sizeof(char);
 
-    length = line + headers + body + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + headers + body;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         return NULL;
     }
 
@@ -380,8 +380,8 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     headers += strlen(date)*sizeof(char);
     headers += (log10(body)+1)*sizeof(char);
 
-    length = line + support + headers + body + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + support + headers + body;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         return NULL;
     }
 
-- 
2.43.0


From 73d0664fb4a9790423a139fb74aa696077bea4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 28/49] fix: connection stayed open after a closing frame that
 was written in several parts

---
 src/worker.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index acc3935..4343239 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1489,8 +1489,7 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
 
             while ( likely(bytes_sent < message_length) ) {
                 // Check if message contains closing byte
-                if ( unlikely(message->framed && bytes_sent == 0 &&
-                     (message->msg[0] & 0xF) == CLOSE_FRAME) ) {
+                if ( unlikely(message->framed && (message->msg[0] & 0xF) == CLOSE_FRAME) ) {
                     closing = true;
                 }
 
-- 
2.43.0


From 4c5b8125dc85cf5caff160f94372283b64d432f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 29/49] fix: TLS connection was kept after only part of a ping
 had been sent

---
 src/ssl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssl.c b/src/ssl.c
index 033881c..90287c3 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -512,6 +512,11 @@ void WSS_ssl_write(wss_session_t *session, char *message, unsigned int message_l
         }
         written += n;
     } while ( written < message_length );
+
+    // The client is not able to read anything after half a frame
+    if ( unlikely(written < message_length) ) {
+        session->closing = true;
+    }
 #endif
 }
 
-- 
2.43.0


From c37f761b019ed6ec46449029faa4a174f1714625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:55 +0000
Subject: [PATCH 30/49] fix: Messages and control frames received together with
 the beginning of a fragmented message are handled at once, instead of waiting
 for the rest of that message

---
 src/worker.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 4343239..4c8faf9 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1333,15 +1333,30 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     }
 
     // If fragmented is still true, we did not receive the whole message, and
-    // we hence want to wait until we get the rest.
+    // we hence want to wait until we get the rest. Whatever was received in
+    // front of the message does not have to wait.
     if ( unlikely(fragmented) ) {
         WSS_log_trace("Detected missing frames in fragmented message, will wait for further IO");
 
-        session->frames = frames;
-        session->frames_length = frames_length;
-        session->event = READ;
+        session->frames_length = frames_length-starting_frame;
 
-        return;
+        if ( likely(starting_frame == 0) ) {
+            session->frames = frames;
+            session->event = READ;
+
+            return;
+        }
+
+        if ( unlikely(NULL == (session->frames = WSS_malloc(session->frames_length*sizeof(wss_frame_t *)))) ) {
+            WSS_log_error("Unable to allocate frames");
+            free_frames(frames, frames_length);
+            session->frames_length = 0;
+            session->closing = true;
+            return;
+        }
+
+        memcpy(session->frames, frames+starting_frame, session->frames_length*sizeof(wss_frame_t *));
+        frames_length = starting_frame;
     }
 
     WSS_log_trace("Frames was validated");
-- 
2.43.0


From 326a2d9f925d7b1f7f3694a17e602fae033f6295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:55 +0000
Subject: [PATCH 31/49] fix: Frames received in front of an incomplete frame
 are handled at once, and their bytes are not kept

---
 src/worker.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 4c8faf9..6eb3886 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1102,14 +1102,22 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
             WSS_free_frame(frame);
 
+            // Keep only the bytes of the incomplete frame. The frames in front
+            // of it do not have to wait.
+            payload_length -= prev_offset;
+            memmove(payload, payload+prev_offset, payload_length);
+
             session->payload = payload;
             session->payload_length = payload_length;
-            session->offset = prev_offset;
-            session->frames = frames;
-            session->frames_length = frames_length;
-            session->event = READ;
+            payload = NULL;
 
-            return;
+            if ( likely(frames_length == 0) ) {
+                session->event = READ;
+
+                return;
+            }
+
+            break;
         }
 
         // If no extension is negotiated, the rsv bits must not be used
-- 
2.43.0


From 85e80162df8c9d172a27ddb251b172ae1b5ec62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:55 +0000
Subject: [PATCH 32/49] fix: Only the frames of one message are counted against
 the maximal number of fragments of a message

---
 src/worker.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/worker.c b/src/worker.c
index 6eb3886..a3b982a 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -988,6 +988,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     size_t msg_length = 0;
     size_t msg_offset = 0;
     size_t starting_frame = 0;
+    size_t fragments;
     bool fragmented = false;
     char *buffer;
 
@@ -1018,6 +1019,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     session->offset = 0;
     session->frames = NULL;
     session->frames_length = 0;
+    fragments = frames_length;
 
     // If handshake has been made, we can read the websocket frames from
     // the connection
@@ -1219,8 +1221,13 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             frame = WSS_pong_frame(frame);
         }
 
+        // Count the frames of the message. Control frames are not part of it
+        if ( likely(NULL != frame && frame->opcode < 0x8) ) {
+            fragments = (frame->opcode == CONTINUATION_FRAME ? fragments : 0) + 1;
+        }
+
         // Check if frame count is exceeded
-        if ( unlikely(frames_length+1 > server->config->max_frames) ) {
+        if ( unlikely(fragments > server->config->max_frames) ) {
             WSS_free_frame(frame);
             frame = WSS_closing_frame(CLOSE_BIG, NULL);
         }
-- 
2.43.0


From aa65a8a20f665813685da7d7651785a025f4589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 33/49] fix: base64 encoding reports a failed allocation
 instead of writing through a null pointer

---
 src/b64.c |  4 ++++
 src/ssl.c | 12 +++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/b64.c b/src/b64.c
index e79db74..636a018 100644
--- a/src/b64.c
+++ b/src/b64.c
@@ -39,6 +39,7 @@ b64_encode (const unsigned char *src, size_t len) {
             // part by index from the base 64 index table
             // into `enc' unsigned char array
             enc = (char *) b64_realloc(enc, size + 4);
+            if (NULL == enc) { return NULL; }
             for (i = 0; i < 4; ++i) {
                 enc[size++] = b64_table[buf[i]];
             }
@@ -64,6 +65,7 @@ b64_encode (const unsigned char *src, size_t len) {
         // perform same write to `enc` with new allocation
         for (j = 0; (j < i + 1); ++j) {
             enc = (char *) b64_realloc(enc, size + 1);
+            if (NULL == enc) { return NULL; }
             enc[size++] = b64_table[buf[j]];
         }
 
@@ -71,12 +73,14 @@ b64_encode (const unsigned char *src, size_t len) {
         // append `=' to `enc'
         while ((i++ < 3)) {
             enc = (char *) b64_realloc(enc, size + 1);
+            if (NULL == enc) { return NULL; }
             enc[size++] = '=';
         }
     }
 
     // Make sure we have enough space to add '\0' character at end.
     enc = (char *) b64_realloc(enc, size + 1);
+    if (NULL == enc) { return NULL; }
     enc[size] = '\0';
 
     return enc;
diff --git a/src/ssl.c b/src/ssl.c
index 90287c3..e51e151 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -801,7 +801,9 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
 #elif defined(OPENSSL_IS_BORINGSSL)
     SHA1((const unsigned char *)key, key_length, (unsigned char*) sha1Key);
 
-    *accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH);
+    if ( unlikely(NULL == (*accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH))) ) {
+        return 0;
+    }
     acceptKeyLength = strlen(*accept_key);
 #elif defined(USE_WOLFSSL)
     Sha sha;
@@ -813,7 +815,9 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
         return 0;
     }
 
-    *accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH);
+    if ( unlikely(NULL == (*accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH))) ) {
+        return 0;
+    }
     acceptKeyLength = strlen(*accept_key);
 #else
     SHA1Context sha;
@@ -830,7 +834,9 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
         return 0;
     }
 
-    *accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH);
+    if ( unlikely(NULL == (*accept_key = b64_encode((const unsigned char *) sha1Key, SHA_DIGEST_LENGTH))) ) {
+        return 0;
+    }
     acceptKeyLength = strlen(*accept_key);
 #endif
 
-- 
2.43.0


From 4071d17762bde79b5060c2c923f76df92dd7cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 34/49] fix: building the request pattern reports a failed
 allocation instead of writing through a null pointer

---
 src/http.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index b95a1e5..9195a10 100644
--- a/src/http.c
+++ b/src/http.c
@@ -68,7 +68,9 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     request_uri_length += sum_path_length*sizeof(char);
     request_uri_length += sum_query_length*sizeof(char);
     request_uri_length += sum_query_length*sizeof(char);
-    request_uri = (char *) WSS_malloc(request_uri_length+1*sizeof(char));
+    if ( unlikely(NULL == (request_uri = (char *) WSS_malloc(request_uri_length+1*sizeof(char)))) ) {
+        return NULL;
+    }
 
     if (ssl) {
         s = "s";
-- 
2.43.0


From 3787ac764f07d06fc1746d994991b0f5fd50fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 35/49] fix: a failed allocation while adding to a hash table
 does not end the server

---
 extensions/permessage-deflate/permessage-deflate.c |  8 ++++++++
 include/uthash.h                                   |  2 +-
 src/extensions.c                                   |  8 ++++++++
 src/session.c                                      | 13 +++++++++++++
 src/subprotocols.c                                 |  8 ++++++++
 subprotocols/broadcast/broadcast.c                 |  4 ++++
 6 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index 0db8fed..d0e0c41 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -295,6 +295,14 @@ static bool add_comp(wss_comp_t *comp) {
 
     HASH_ADD_INT(compressors, fd, comp);
 
+    if ( unlikely(NULL == comp->hh.tbl) ) {
+        pthread_mutex_unlock(&lock);
+        (void)inflateEnd(&comp->decompressor);
+        (void)deflateEnd(&comp->compressor);
+        allocs.free(comp);
+        return false;
+    }
+
     pthread_mutex_unlock(&lock);
 
     return true;
diff --git a/include/uthash.h b/include/uthash.h
index 5e5866a..ea68764 100644
--- a/include/uthash.h
+++ b/include/uthash.h
@@ -111,7 +111,7 @@ typedef unsigned char uint8_t;
 #endif
 
 #ifndef HASH_NONFATAL_OOM
-#define HASH_NONFATAL_OOM 0
+#define HASH_NONFATAL_OOM 1
 #endif
 
 #if HASH_NONFATAL_OOM
diff --git a/src/extensions.c b/src/extensions.c
index 2f17450..26c5ef3 100644
--- a/src/extensions.c
+++ b/src/extensions.c
@@ -150,6 +150,14 @@ void WSS_load_extensions(wss_config_t *config)
 
         HASH_ADD_KEYPTR(hh, extensions, proto->name, name_length, proto);
 
+        if ( unlikely(NULL == proto->hh.tbl) ) {
+            WSS_log_error("Unable to allocate memory for table of extensions");
+            dlclose(proto->handle);
+            WSS_free((void **) &proto->name);
+            WSS_free((void **) &proto);
+            return;
+        }
+
         WSS_log_trace("Setting custom allocators for extension %s", proto->name);
 
         proto->alloc(WSS_malloc, WSS_realloc_normal, WSS_free_normal);
diff --git a/src/session.c b/src/session.c
index fe1829a..1e16729 100644
--- a/src/session.c
+++ b/src/session.c
@@ -153,6 +153,19 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
 
     HASH_ADD_INT(sessions, fd, session);
 
+    if ( unlikely(NULL == session->hh.tbl) ) {
+        WSS_log_error("Unable to allocate memory for table of sessions");
+        pthread_mutex_destroy(&session->lock);
+        pthread_mutex_destroy(&session->lock_jobs);
+        pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_mutex_destroy(&session->lock_send);
+        pthread_mutexattr_destroy(&session->lock_attr);
+        WSS_free((void **) &session->ip);
+        WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
+    }
+
     pthread_rwlock_unlock(&lock);
 
     return session;
diff --git a/src/subprotocols.c b/src/subprotocols.c
index 8cd9a8d..901dad3 100644
--- a/src/subprotocols.c
+++ b/src/subprotocols.c
@@ -140,6 +140,14 @@ void WSS_load_subprotocols(wss_config_t *config)
 
         HASH_ADD_KEYPTR(hh, subprotocols, proto->name, name_length, proto);
 
+        if ( unlikely(NULL == proto->hh.tbl) ) {
+            WSS_log_error("Unable to allocate memory for table of subprotocols");
+            dlclose(proto->handle);
+            WSS_free((void **) &proto->name);
+            WSS_free((void **) &proto);
+            return;
+        }
+
         WSS_log_trace("Setting custom allocators for subprotocol %s", proto->name);
 
         // Set custom allocators
diff --git a/subprotocols/broadcast/broadcast.c b/subprotocols/broadcast/broadcast.c
index bee4612..f4904ec 100644
--- a/subprotocols/broadcast/broadcast.c
+++ b/subprotocols/broadcast/broadcast.c
@@ -110,6 +110,10 @@ void onConnect(int fd, char *ip, int port, char *path, char *cookies) {
 
     HASH_ADD_INT(clients, fd, client);
 
+    if ( unlikely(NULL == client->hh.tbl) ) {
+        allocs.free(client);
+    }
+
     pthread_rwlock_unlock(&lock);
 
     return;
-- 
2.43.0


From e6368bf323973d873daf065a64de710a9cee0c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:40 +0000
Subject: [PATCH 36/49] fix: decline offers of compression with an invalid
 client window

---
 extensions/permessage-deflate/permessage-deflate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index d0e0c41..ec1879b 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -539,7 +539,7 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
         return;
     }
 
-    for (i = 3; likely(i < nmatch-1); i++) {
+    for (i = 3; likely(i < nmatch); i++) {
         if (matches[i].rm_so == -1) {
             continue;
         }
-- 
2.43.0


From 0b5456f43c484e00af243980ae4fc91b970db280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:40 +0000
Subject: [PATCH 37/49] fix: decline an offer of compression with a window zlib
 cannot keep to instead of exceeding it

---
 extensions/permessage-deflate/permessage-deflate.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index ec1879b..2ef3da0 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -158,11 +158,6 @@ static void parse_param(const char *param, param_t *p) {
             j++;
             bits = strtol(sep+j, NULL, 10);
 
-            // Is really 8, but zlib does not support value 8 so increase to 9
-            if (bits == SERVER_MIN_WINDOW_BITS) {
-                bits++;
-            }
-
             p->server_max_window_bits = MIN(bits, SERVER_MAX_WINDOW_BITS);
         } else if ( strncmp(EXT_CLIENT_NO_CONTEXT_TAKEOVER, sep, strlen(EXT_CLIENT_NO_CONTEXT_TAKEOVER)) == 0) {
             p->client_no_context_takeover = true;
@@ -568,7 +563,9 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
 
             j++;
             val = strtol(buffer+j, NULL, 10);
-            if ( val < SERVER_MIN_WINDOW_BITS || SERVER_MAX_WINDOW_BITS < val) {
+
+            // zlib does not support 8, and a larger window must not be used
+            if ( val <= SERVER_MIN_WINDOW_BITS || SERVER_MAX_WINDOW_BITS < val) {
                 *valid = false;
                 return;
             }
-- 
2.43.0


From c59cad15261d04315b3bc149489cd9e5567e93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:40 +0000
Subject: [PATCH 38/49] fix: decline offers of compression whose parameters are
 repeated, not separated or have leading zeros

---
 .../permessage-deflate/permessage-deflate.c   | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index 2ef3da0..9783f0b 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -117,8 +117,9 @@ static inline char *trim(char* str)
     return str;
 }
 
-static void parse_param(const char *param, param_t *p) {
+static bool parse_param(const char *param, param_t *p) {
     int bits, j;
+    bool cmwb = false, smwb = false, cnct = false, snct = false;
     char *sep, *sepptr;
     size_t params_length = strlen(param);
     char buffer[params_length+1];
@@ -135,6 +136,11 @@ static void parse_param(const char *param, param_t *p) {
     sep = trim(strtok_r(buffer, ";", &sepptr));
     while ( likely(NULL != sep) ) {
         if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, sep, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0) {
+            if ( unlikely(cmwb) ) {
+                return false;
+            }
+            cmwb = true;
+
             j = strlen(EXT_CLIENT_MAX_WINDOW_BITS);
             while ( sep[j] != '=' && sep[j] != '\0' ) {
                 j++;
@@ -150,6 +156,11 @@ static void parse_param(const char *param, param_t *p) {
                 p->client_max_window_bits = default_client_window_bits;
             }
         } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, sep, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0) {
+            if ( unlikely(smwb) ) {
+                return false;
+            }
+            smwb = true;
+
             j = strlen(EXT_SERVER_MAX_WINDOW_BITS);
             while ( sep[j] != '=' ) {
                 j++;
@@ -160,13 +171,25 @@ static void parse_param(const char *param, param_t *p) {
 
             p->server_max_window_bits = MIN(bits, SERVER_MAX_WINDOW_BITS);
         } else if ( strncmp(EXT_CLIENT_NO_CONTEXT_TAKEOVER, sep, strlen(EXT_CLIENT_NO_CONTEXT_TAKEOVER)) == 0) {
+            if ( unlikely(cnct) ) {
+                return false;
+            }
+            cnct = true;
+
             p->client_no_context_takeover = true;
         } else if ( strncmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, sep, strlen(EXT_SERVER_NO_CONTEXT_TAKEOVER)) == 0) {
+            if ( unlikely(snct) ) {
+                return false;
+            }
+            snct = true;
+
             p->server_no_context_takeover = true;
         }
 
         sep = trim(strtok_r(NULL, ";", &sepptr));
     }
+
+    return true;
 }
 
 static char * negotiate(char *param, wss_comp_t *comp) {
@@ -174,7 +197,9 @@ static char * negotiate(char *param, wss_comp_t *comp) {
     char *accepted = NULL;
     param_t *p = &comp->params;
 
-    parse_param(param, p);
+    if ( unlikely(! parse_param(param, p)) ) {
+        return NULL;
+    }
 
     if (p->server_no_context_takeover) {
         // server_no_contect_takeover
@@ -498,7 +523,7 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
     size_t nmatch = 7;
     regmatch_t matches[nmatch];
     wss_comp_t *comp;
-    const char *reg_str = "^(\\s*((server_no_context_takeover)|(client_no_context_takeover)|(server_max_window_bits\\s*=\\s*[0-9]+)|(client_max_window_bits(\\s*=\\s*[0-9]+)?))*\\s*;?\\s*)*$";
+    const char *reg_str = "^(\\s*((server_no_context_takeover)|(client_no_context_takeover)|(server_max_window_bits\\s*=\\s*[1-9][0-9]*)|(client_max_window_bits(\\s*=\\s*[1-9][0-9]*)?))?\\s*(;|$))*$";
 
     if ( NULL == param ) {
         if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
@@ -583,7 +608,11 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
     comp->params.client_no_context_takeover = default_client_no_context_takeover;
     comp->params.server_no_context_takeover = default_server_no_context_takeover;
 
-    *accepted = negotiate(param, comp);
+    if ( unlikely(NULL == (*accepted = negotiate(param, comp))) ) {
+        allocs.free(comp);
+        *valid = false;
+        return;
+    }
 
     *valid = add_comp(comp);
 }
-- 
2.43.0


From 2ca345be57ad505c5bd2c385b81945af8f125ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:40 +0000
Subject: [PATCH 39/49] fix: expect any window of a client that was not asked
 to limit it

---
 extensions/permessage-deflate/permessage-deflate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index 9783f0b..d333ccd 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -532,7 +532,7 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
         }
 
         comp->fd = fd;
-        comp->params.client_max_window_bits = default_client_window_bits;
+        comp->params.client_max_window_bits = 0;
         comp->params.server_max_window_bits = default_server_window_bits;
         comp->params.client_no_context_takeover = default_client_no_context_takeover;
         comp->params.server_no_context_takeover = default_server_no_context_takeover;
-- 
2.43.0


From 8b61c941f217e966d0fad0af7e1549796d766b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:21 +0000
Subject: [PATCH 40/49] fix: ignore chunk sizes zlib cannot flush with

---
 extensions/permessage-deflate/permessage-deflate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index d333ccd..b8ffb35 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -28,7 +28,8 @@
 #define EXT_CLIENT_MAX_WINDOW_BITS     "client_max_window_bits"
 
 #define MAX_CHUNK_SIZE UINT_MAX
-#define MIN_CHUNK_SIZE 1
+// zlib does not come to an end of flushing with six bytes or less at a time
+#define MIN_CHUNK_SIZE 7
 #define SERVER_MAX_MEM_LEVEL MAX_MEM_LEVEL
 #define SERVER_MIN_MEM_LEVEL 1
 #define SERVER_MAX_WINDOW_BITS 15
-- 
2.43.0


From 84ddf6bb02b5bb294643459e46c815f4bad96241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:42 +0000
Subject: [PATCH 41/49] fix: start with an empty path or query in the
 configuration

An empty string among the configured paths or queries made the server write
the end of the text into a string constant, which ended it at start-up.
---
 src/http.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/http.c b/src/http.c
index 9195a10..9386ac5 100644
--- a/src/http.c
+++ b/src/http.c
@@ -76,15 +76,15 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
         s = "s";
     }
 
-    if ( unlikely(sum_host_length > 0 && NULL == (host = WSS_malloc(sum_host_length+1))) ) {
+    if ( unlikely(config->hosts_length > 0 && NULL == (host = WSS_malloc(sum_host_length+1))) ) {
         return NULL;
     }
 
-    if ( unlikely(sum_path_length > 0 && NULL == (path = WSS_malloc(sum_path_length+1))) ) {
+    if ( unlikely(config->paths_length > 0 && NULL == (path = WSS_malloc(sum_path_length+1))) ) {
         return NULL;
     }
 
-    if ( unlikely(sum_query_length > 0 && NULL == (query = WSS_malloc(sum_query_length+1))) ) {
+    if ( unlikely(config->queries_length > 0 && NULL == (query = WSS_malloc(sum_query_length+1))) ) {
         return NULL;
     }
 
@@ -120,15 +120,15 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
 
     sprintf(request_uri, REQUEST_URI, s, host, port, path, query, query);
 
-    if ( likely(strlen(host) > 0) ) {
+    if ( likely(config->hosts_length > 0) ) {
         WSS_free((void **) &host);
     }
 
-    if ( likely(strlen(path) > 0) ) {
+    if ( likely(config->paths_length > 0) ) {
         WSS_free((void **) &path);
     }
 
-    if ( likely(strlen(query) > 0) ) {
+    if ( likely(config->queries_length > 0) ) {
         WSS_free((void **) &query);
     }
 
-- 
2.43.0


From b71fd7764707533a93c4eb6c1abee640aaa001e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:42 +0000
Subject: [PATCH 42/49] fix: do not start without the configured restrictions
 when memory runs out

When there was no memory for the pattern of acceptable request URIs the server
started without it and accepted every request URI.
---
 src/http.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/http.c b/src/http.c
index 9386ac5..ca3fa5a 100644
--- a/src/http.c
+++ b/src/http.c
@@ -27,9 +27,10 @@
  * @param   config    [wss_config_t *]  "The configuration of the server"
  * @param   ssl       [bool]            "Whether server uses SSL"
  * @param   port      [int]             "The server port"
- * @return            [char *]          "The request uri regex pattern"
+ * @param   pattern   [char **]         "The request uri regex pattern, NULL if any request uri is allowed"
+ * @return            [wss_error_t]     "The error status"
  */
-static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
+static wss_error_t generate_request_uri(wss_config_t * config, bool ssl, int port, char **pattern) {
     int i, j, k;
     size_t iw = 0, jw = 0, kw = 0;
     size_t request_uri_length = 0;
@@ -42,6 +43,8 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     char *query = "";
     char *s = "";
 
+    *pattern = NULL;
+
     for (i = 0; i < config->hosts_length; i++) {
         sum_host_length += strlen(config->hosts[i]); 
     }
@@ -58,7 +61,7 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     sum_query_length += MAX(config->queries_length-1, 0);
 
     if (sum_host_length+sum_path_length+sum_query_length == 0) {
-        return NULL;
+        return WSS_SUCCESS;
     }
 
     request_uri_length += strlen(REQUEST_URI)*sizeof(char)-12*sizeof(char);
@@ -69,7 +72,7 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     request_uri_length += sum_query_length*sizeof(char);
     request_uri_length += sum_query_length*sizeof(char);
     if ( unlikely(NULL == (request_uri = (char *) WSS_malloc(request_uri_length+1*sizeof(char)))) ) {
-        return NULL;
+        return WSS_MEMORY_ERROR;
     }
 
     if (ssl) {
@@ -77,15 +80,27 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     }
 
     if ( unlikely(config->hosts_length > 0 && NULL == (host = WSS_malloc(sum_host_length+1))) ) {
-        return NULL;
+        WSS_free((void **) &request_uri);
+        return WSS_MEMORY_ERROR;
     }
 
     if ( unlikely(config->paths_length > 0 && NULL == (path = WSS_malloc(sum_path_length+1))) ) {
-        return NULL;
+        if ( likely(config->hosts_length > 0) ) {
+            WSS_free((void **) &host);
+        }
+        WSS_free((void **) &request_uri);
+        return WSS_MEMORY_ERROR;
     }
 
     if ( unlikely(config->queries_length > 0 && NULL == (query = WSS_malloc(sum_query_length+1))) ) {
-        return NULL;
+        if ( likely(config->paths_length > 0) ) {
+            WSS_free((void **) &path);
+        }
+        if ( likely(config->hosts_length > 0) ) {
+            WSS_free((void **) &host);
+        }
+        WSS_free((void **) &request_uri);
+        return WSS_MEMORY_ERROR;
     }
 
     for (i = 0; likely(i < config->hosts_length); i++) {
@@ -132,7 +147,9 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
         WSS_free((void **) &query);
     }
 
-    return request_uri;
+    *pattern = request_uri;
+
+    return WSS_SUCCESS;
 }
 
 /**
@@ -151,7 +168,10 @@ wss_error_t WSS_http_regex_init(wss_server_t *server) {
         ssl = true;
     }
 
-    request_uri = generate_request_uri(server->config, ssl, server->port);
+    if ( unlikely(WSS_SUCCESS != (err = generate_request_uri(server->config, ssl, server->port, &request_uri))) ) {
+        return err;
+    }
+
     if ( likely(request_uri != NULL) ) {
         if ( NULL == (server->re = WSS_malloc(sizeof(regex_t)))) {
             return WSS_MEMORY_ERROR;
-- 
2.43.0


From 9a42ef181458b8c1801977312ee7cf41bb9ad5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:42 +0000
Subject: [PATCH 43/49] fix: free the pattern of request URIs when it cannot be
 compiled

The pattern was lost, and the expression that was not compiled was later
passed to regfree.
---
 src/http.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http.c b/src/http.c
index ca3fa5a..4cfc975 100644
--- a/src/http.c
+++ b/src/http.c
@@ -174,10 +174,13 @@ wss_error_t WSS_http_regex_init(wss_server_t *server) {
 
     if ( likely(request_uri != NULL) ) {
         if ( NULL == (server->re = WSS_malloc(sizeof(regex_t)))) {
+            WSS_free((void **) &request_uri);
             return WSS_MEMORY_ERROR;
         }
 
         if ( unlikely((err = regcomp(server->re, request_uri, REG_EXTENDED|REG_NOSUB)) != 0) ) {
+            WSS_free((void **) &server->re);
+            WSS_free((void **) &request_uri);
             return WSS_REGEX_ERROR;
         }
 
-- 
2.43.0


From 1e05f04388b2785ace34411a24902255b4ebeab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:24 +0000
Subject: [PATCH 44/49] fix: restrict request URIs when a port is 0

The length of the pattern was computed from the logarithm of the port, which
for port 0 asked for an impossible amount of memory.
---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index 4cfc975..3ce3ecb 100644
--- a/src/http.c
+++ b/src/http.c
@@ -66,7 +66,7 @@ static wss_error_t generate_request_uri(wss_config_t * config, bool ssl, int por
 
     request_uri_length += strlen(REQUEST_URI)*sizeof(char)-12*sizeof(char);
     request_uri_length += ssl*sizeof(char);
-    request_uri_length += (log10(port)+1)*sizeof(char);
+    request_uri_length += (port > 0 ? log10(port)+1 : 1)*sizeof(char);
     request_uri_length += sum_host_length*sizeof(char);
     request_uri_length += sum_path_length*sizeof(char);
     request_uri_length += sum_query_length*sizeof(char);
-- 
2.43.0


From f8fa9aaaa4d94d3f840e0ca886f9aa8d00a2537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:09 +0000
Subject: [PATCH 45/49] fix: destroy the state lock when the limits cannot be
 read or set

---
 src/server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server.c b/src/server.c
index 65bddfd..24a9315 100644
--- a/src/server.c
+++ b/src/server.c
@@ -408,6 +408,8 @@ int WSS_server_start(wss_config_t *config) {
     if ( getrlimit(RLIMIT_NOFILE, &limits) < 0 ) {
         WSS_log_fatal("Failed to get kernel file descriptor limits: %s", strerror(errno));
 
+        pthread_mutex_destroy(&state.lock);
+
         return EXIT_FAILURE;
     }
 
@@ -417,6 +419,8 @@ int WSS_server_start(wss_config_t *config) {
     if ( setrlimit(RLIMIT_NOFILE, &limits) < 0 ) {
         WSS_log_fatal("Failed to set kernel file descriptor limits: %s", strerror(errno));
 
+        pthread_mutex_destroy(&state.lock);
+
         return EXIT_FAILURE;
     }
 
-- 
2.43.0


From 3bab845b5e28c964e95d4acc016f16723cc75348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:09 +0000
Subject: [PATCH 46/49] fix: close the pipes of a server that fails to start

---
 src/http.c   | 2 ++
 src/server.c | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index 3ce3ecb..3e4c518 100644
--- a/src/http.c
+++ b/src/http.c
@@ -215,6 +215,8 @@ wss_error_t WSS_http_server(wss_server_t *server) {
      */
     server->fd = -1;
     server->poll_fd = -1;
+    server->rearm_pipefd[0] = -1;
+    server->rearm_pipefd[1] = -1;
 
     WSS_log_trace("Creating socket filedescriptor");
     if ( unlikely((err = WSS_socket_create(server)) != WSS_SUCCESS) ) {
diff --git a/src/server.c b/src/server.c
index 24a9315..f0146ef 100644
--- a/src/server.c
+++ b/src/server.c
@@ -552,6 +552,7 @@ int WSS_server_start(wss_config_t *config) {
     if ( unlikely(WSS_SUCCESS != WSS_http_server(http)) ) {
         WSS_log_fatal("Unable to initialize http server");
 
+        WSS_poll_close(http);
         WSS_server_free(http);
         WSS_session_destroy_lock();
         WSS_destroy_subprotocols();
@@ -611,8 +612,9 @@ int WSS_server_start(wss_config_t *config) {
         }
 
         if ( unlikely(WSS_SUCCESS != WSS_http_server(https)) ) {
-            WSS_server_free(https);
             WSS_server_abort(http);
+            WSS_poll_close(https);
+            WSS_server_free(https);
             WSS_session_destroy_lock();
             WSS_destroy_subprotocols();
             WSS_destroy_extensions();
-- 
2.43.0


From 1c29958ea92baddc57cc221441eba8429a499190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:09 +0000
Subject: [PATCH 47/49] fix: finish the tasks of both servers before either is
 closed and freed

---
 include/http.h |  9 +++++++++
 src/http.c     | 30 +++++++++++++++++++++++++++---
 src/server.c   | 48 +++++++++++++++++++++++++++++++++++-------------
 3 files changed, 71 insertions(+), 16 deletions(-)

diff --git a/include/http.h b/include/http.h
index ce42472..3ba9b5c 100644
--- a/include/http.h
+++ b/include/http.h
@@ -24,6 +24,15 @@ wss_error_t WSS_http_regex_init(wss_server_t *server);
  */
 wss_error_t WSS_http_server(wss_server_t *server);
 
+/**
+ * Function that stops reading from the socket of the http server and waits for
+ * the tasks of its threadpool to finish.
+ *
+ * @param   server	[wss_server_t *] 	"The http server"
+ * @return 			[wss_error_t]       "The error status"
+ */
+wss_error_t WSS_http_server_stop(wss_server_t *server);
+
 /**
  * Function that free op space allocated for the http server and closes the
  * filedescriptors in use..
diff --git a/src/http.c b/src/http.c
index 3e4c518..a523553 100644
--- a/src/http.c
+++ b/src/http.c
@@ -272,13 +272,13 @@ wss_error_t WSS_http_server(wss_server_t *server) {
 }
 
 /**
- * Function that free op space allocated for the http server and closes the
- * filedescriptors in use..
+ * Function that stops reading from the socket of the http server and waits for
+ * the tasks of its threadpool to finish.
  *
  * @param   server	[wss_server_t *] 	"The http server"
  * @return 			[wss_error_t]       "The error status"
  */
-wss_error_t WSS_http_server_free(wss_server_t *server) {
+wss_error_t WSS_http_server_stop(wss_server_t *server) {
     int err;
     int res = WSS_SUCCESS;
 
@@ -321,6 +321,30 @@ wss_error_t WSS_http_server_free(wss_server_t *server) {
                         break;
                 }
             }
+
+            server->pool = NULL;
+        }
+    }
+
+    return res;
+}
+
+/**
+ * Function that free op space allocated for the http server and closes the
+ * filedescriptors in use..
+ *
+ * @param   server	[wss_server_t *] 	"The http server"
+ * @return 			[wss_error_t]       "The error status"
+ */
+wss_error_t WSS_http_server_free(wss_server_t *server) {
+    int res = WSS_SUCCESS;
+
+    if ( likely(NULL != server) ) {
+        /**
+         * Shutting down socket and threadpool
+         */
+        if ( likely(NULL != server->pool) ) {
+            res = WSS_http_server_stop(server);
         }
 
         if ( NULL != server->re ) {
diff --git a/src/server.c b/src/server.c
index f0146ef..490fef6 100644
--- a/src/server.c
+++ b/src/server.c
@@ -365,20 +365,35 @@ static int WSS_server_free(wss_server_t *server) {
 }
 
 /**
- * Stops a server that is already running and frees all memory it has allocated
+ * Stops the servers that are already running and frees all memory they have
+ * allocated
  *
+ * @param 	http	[wss_server_t *]    "The running http server"
+ * @param 	https	[wss_server_t *]    "The running https server or NULL"
  * @return 	        [void]
  */
-static void WSS_server_abort(wss_server_t *server) {
+static void WSS_server_abort(wss_server_t *http, wss_server_t *https) {
     WSS_server_set_state(HALT_ERROR);
 
     if ( likely(close_pipefd[1] != -1) && unlikely(write(close_pipefd[1], "HALT", 5) < 0) ) {
         WSS_log_fatal("Unable to write halting message through pipe");
     }
 
-    pthread_join(server->thread_id, NULL);
-    WSS_poll_close(server);
-    WSS_server_free(server);
+    pthread_join(http->thread_id, NULL);
+    if (NULL != https) {
+        pthread_join(https->thread_id, NULL);
+    }
+
+    WSS_http_server_stop(http);
+    WSS_http_server_stop(https);
+
+    WSS_poll_close(http);
+    WSS_server_free(http);
+    if (NULL != https) {
+        WSS_poll_close(https);
+        WSS_server_free(https);
+    }
+
     WSS_session_delete_all();
 }
 
@@ -566,7 +581,7 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("Allocating memory for HTTPS instance");
 
         if ( unlikely(NULL == (https = (wss_server_t *) WSS_malloc(sizeof(wss_server_t)))) ) {
-            WSS_server_abort(http);
+            WSS_server_abort(http, NULL);
             WSS_session_destroy_lock();
             WSS_destroy_subprotocols();
             WSS_destroy_extensions();
@@ -579,7 +594,7 @@ int WSS_server_start(wss_config_t *config) {
 
         if ( unlikely(0 != (err = pthread_mutex_init(&https->lock, NULL))) ) {
             WSS_free((void **) &https);
-            WSS_server_abort(http);
+            WSS_server_abort(http, NULL);
             WSS_session_destroy_lock();
             WSS_destroy_subprotocols();
             WSS_destroy_extensions();
@@ -600,7 +615,7 @@ int WSS_server_start(wss_config_t *config) {
         https->poll_fd = -1;
         if ( unlikely(WSS_SUCCESS != WSS_http_ssl(https)) ) {
             WSS_server_free(https);
-            WSS_server_abort(http);
+            WSS_server_abort(http, NULL);
             WSS_session_destroy_lock();
             WSS_destroy_subprotocols();
             WSS_destroy_extensions();
@@ -612,7 +627,7 @@ int WSS_server_start(wss_config_t *config) {
         }
 
         if ( unlikely(WSS_SUCCESS != WSS_http_server(https)) ) {
-            WSS_server_abort(http);
+            WSS_server_abort(http, NULL);
             WSS_poll_close(https);
             WSS_server_free(https);
             WSS_session_destroy_lock();
@@ -629,10 +644,7 @@ int WSS_server_start(wss_config_t *config) {
     WSS_log_trace("Creating HTTP cleanup thread");
     
     if ( unlikely(pthread_create(&cleanup_thread_id, NULL, WSS_cleanup, NULL) != 0) ) {
-        WSS_server_abort(http);
-        if (ssl) {
-            WSS_server_abort(https);
-        }
+        WSS_server_abort(http, https);
         WSS_session_destroy_lock();
         WSS_destroy_subprotocols();
         WSS_destroy_extensions();
@@ -670,6 +682,16 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("HTTPS server thread has shutdown");
     }
 
+    // Tasks of one server might use the other, hence none is freed before all
+    // tasks have finished
+    if ( unlikely(WSS_http_server_stop(http) != WSS_SUCCESS) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+
+    if ( unlikely(WSS_http_server_stop(https) != WSS_SUCCESS) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+
     if ( unlikely(WSS_poll_close(http) != WSS_SUCCESS) ) {
         WSS_server_set_state(HALT_ERROR);
     }
-- 
2.43.0


From 0afa19cac574b61d2aeccfe9c8bec6d6bffd99a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:09 +0000
Subject: [PATCH 48/49] fix: close a socket that cannot be bound

---
 src/socket.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/socket.c b/src/socket.c
index 4504164..9961412 100644
--- a/src/socket.c
+++ b/src/socket.c
@@ -64,7 +64,6 @@ wss_error_t WSS_socket_bind(wss_server_t *server) {
 
     if ( unlikely(server->port < 0 || server->port > 65535) ) {
         WSS_log_fatal("Server port must be within range [0, 65535]");
-        server->fd = -1;
         return WSS_SOCKET_BIND_ERROR;
     }
 
@@ -82,7 +81,6 @@ wss_error_t WSS_socket_bind(wss_server_t *server) {
     if ( unlikely((bind(server->fd, (struct sockaddr *) &server->info,
                     sizeof(server->info))) < 0) ) {
         WSS_log_fatal("Unable to bind socket to port: %s", strerror(errno));
-        server->fd = -1;
         return WSS_SOCKET_BIND_ERROR;
     }
     return WSS_SUCCESS;
-- 
2.43.0


From 56328f9b90d0b260bb0f58caafce67611a97c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:09 +0000
Subject: [PATCH 49/49] fix: tell the server threads to stop when the cleanup
 thread fails

---
 src/server.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/server.c b/src/server.c
index 490fef6..9f210a7 100644
--- a/src/server.c
+++ b/src/server.c
@@ -365,19 +365,28 @@ static int WSS_server_free(wss_server_t *server) {
 }
 
 /**
- * Stops the servers that are already running and frees all memory they have
- * allocated
+ * Tells the threads of the servers to stop because of an error
  *
- * @param 	http	[wss_server_t *]    "The running http server"
- * @param 	https	[wss_server_t *]    "The running https server or NULL"
  * @return 	        [void]
  */
-static void WSS_server_abort(wss_server_t *http, wss_server_t *https) {
+static void WSS_server_halt() {
     WSS_server_set_state(HALT_ERROR);
 
     if ( likely(close_pipefd[1] != -1) && unlikely(write(close_pipefd[1], "HALT", 5) < 0) ) {
         WSS_log_fatal("Unable to write halting message through pipe");
     }
+}
+
+/**
+ * Stops the servers that are already running and frees all memory they have
+ * allocated
+ *
+ * @param 	http	[wss_server_t *]    "The running http server"
+ * @param 	https	[wss_server_t *]    "The running https server or NULL"
+ * @return 	        [void]
+ */
+static void WSS_server_abort(wss_server_t *http, wss_server_t *https) {
+    WSS_server_halt();
 
     pthread_join(http->thread_id, NULL);
     if (NULL != https) {
@@ -659,7 +668,7 @@ int WSS_server_start(wss_config_t *config) {
     pthread_join(cleanup_thread_id, &res);
     if ( unlikely(WSS_SUCCESS != (uintptr_t) res) ) {
         WSS_log_error("Cleanup thread returned with error: %d", (int) (uintptr_t) res);
-        WSS_server_set_state(HALT_ERROR);
+        WSS_server_halt();
     }
 
     WSS_log_trace("Cleanup thread has shutdown");
-- 
2.43.0

