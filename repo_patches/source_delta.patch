From 38666c46f60b959a22f9a74a8997e2cc3c552d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 01/44] fix: send whole messages, socket.send may accept only
 part of the data

---
 bversion/http/http_client.py | 2 +-
 bversion/http/http_server.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index 77e3758..63c2169 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -15,7 +15,7 @@ class HTTPClient:
         self.s.connect((host,port))
 
     def send(self, data: bytes):
-        self.s.send(data)
+        self.s.sendall(data)
 
     def send_headers(self, uri: str, headers: Dict[str, str]):
         msg = b"POST " + uri.encode('utf8') + b" HTTP/1.1\r\n"
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index 9a4e155..a348feb 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -97,7 +97,7 @@ def HTTPServer(host, port, connection_handler):
                     responce_headers += k + b':' + v + b'\r\n'
 
                 responce_headers += b"\r\n"
-                c.send(responce_headers)
+                c.sendall(responce_headers)
 
                 if isinstance(rsp.body, ServeFile):
                     c.sendfile(open(rsp.body.path, 'rb'), 0)
@@ -106,7 +106,7 @@ def HTTPServer(host, port, connection_handler):
                     while True:
                         chunk = reader.read(4096)
                         if chunk == b'': break
-                        c.send(chunk)
+                        c.sendall(chunk)
 
         except:
             context.shutdown_handler()
-- 
2.43.0


From d7aa1638a76605c62ef06b67cb593a52a894867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 02/44] fix: stop reading headers when the peer has closed the
 connection

---
 bversion/http/http_client.py | 4 +++-
 bversion/http/http_server.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index 63c2169..93d7526 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -35,7 +35,9 @@ class HTTPClient:
 
         # read request preamble
         while True:
-            data += self.s.recv(1024)
+            chunk = self.s.recv(1024)
+            if chunk == b'': raise Exception('Socket closed')
+            data += chunk
             if b"\r\n\r\n" in data: break
 
         preamble, body_partial = data.split(b"\r\n\r\n", 1)
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index a348feb..c38367b 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -52,8 +52,9 @@ def HTTPServer(host, port, connection_handler):
 
                 # read request preamble
                 while True:
-                    data += c.recv(1024)
-                    if data == b'': raise Exception('Socket closed')
+                    chunk = c.recv(1024)
+                    if chunk == b'': raise Exception('Socket closed')
+                    data += chunk
                     if b"\r\n\r\n" in data: break
 
                 preamble, body_partial = data.split(b"\r\n\r\n", 1)
-- 
2.43.0


From 5eff8a40c429bcf60279e60e9ab100b5c362111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 03/44] fix: never send or read more or less than the announced
 body length

---
 bversion/http/client_http_request.py | 9 ++++++---
 bversion/http/http_common.py         | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bversion/http/client_http_request.py b/bversion/http/client_http_request.py
index ab4cd9d..dd35492 100644
--- a/bversion/http/client_http_request.py
+++ b/bversion/http/client_http_request.py
@@ -65,10 +65,13 @@ class client_http_request:
         conn = self.begin(url, size, headers, content_type = 'application/octet-stream')
 
         with open(file_path, 'rb') as f:
-            while True:
-                chunk = f.read(1000 * 1000)
-                if chunk == b'': break
+            # The file may be changed while it is being sent, send exactly as much as was announced
+            remaining = size
+            while remaining > 0:
+                chunk = f.read(min(remaining, 1000 * 1000))
+                if chunk == b'': raise IOError('File shrank during upload: ' + file_path)
                 conn.send(chunk)
+                remaining -= len(chunk)
 
         parsed_preamble, body = conn.read_responce()
         return body.read_all(), parsed_preamble['headers']
diff --git a/bversion/http/http_common.py b/bversion/http/http_common.py
index 3500f45..b9557f2 100644
--- a/bversion/http/http_common.py
+++ b/bversion/http/http_common.py
@@ -69,7 +69,8 @@ class read_body:
     def read(self, length = None) -> Union[bytes, None]:
         if self.have_read >= self.body_length: return None
 
-        if length is None: length = self.body_length - self.have_read
+        remaining = self.body_length - self.have_read
+        length = remaining if length is None else min(length, remaining)
 
         retbuffer: bytes
         if len(self.body_partial) > 0:
-- 
2.43.0


From 58ebad9fbe73b350a7cf2b483b25ff72f0c47473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 04/44] fix: rollback could delete the objects of the current
 head after a resumed commit

---
 bversion/storage/versioned_storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 8bd5738..e9d0f0d 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -316,8 +316,9 @@ class versioned_storage:
         if gc_log_items != []:
             # If a commit exists and it's hash matches the current head we do not need to do anything
             # The commit succeeded but we failed before deleting the active commit file for some reason
-            is_commit = next((item for item in gc_log_items if item['item_type'] == 'commit'), None)
-            if is_commit is not None and is_commit['item_hash'] == self.get_head():
+            # Several commits can be logged, if an earlier attempt was interrupted and then resumed
+            head = self.get_head()
+            if any(item['item_type'] == 'commit' and item['item_hash'] == head for item in gc_log_items):
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
-- 
2.43.0


From b8d197e6cbc8b6b7e568ce71b5fe31aaa92b8a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:13 +0000
Subject: [PATCH 05/44] fix: a commit whose rollback was interrupted could be
 resumed with missing objects

---
 bversion/storage/server_db.py         | 5 +++++
 bversion/storage/versioned_storage.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index f21086e..1d06c6e 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -270,6 +270,11 @@ class server_db:
 
         self.con.commit()
 
+    #===============================================================================
+    def clear_active_commit_changes(self):
+        self.con.execute("delete from active_commit_changes")
+        self.con.commit()
+
     #===============================================================================
     def get_active_commit_changes(self):
         return self.con.execute("select * from active_commit_changes").fetchall()
diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index e9d0f0d..0ed9d5e 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -322,6 +322,10 @@ class versioned_storage:
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
+                # A rollback which is interrupted part way through must not leave a commit
+                # which could be resumed, as some of it's objects may already have been deleted
+                sdb.clear_active_commit_changes()
+
                 for item in gc_log_items:
                     # delete the object for this file, noting that it may not exist
                     object_dir = 'files' if item['item_type'] == 'file' else 'index'
-- 
2.43.0


From 5fb33d63bc8cfe2ddad9ccce5b2a1e37c3c33aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:13 +0000
Subject: [PATCH 06/44] fix: changing the same path more than once in a commit,
 and deleting files the server does not have

---
 bversion/storage/server_db.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 1d06c6e..eb4490b 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -240,7 +240,7 @@ class server_db:
         file_info['status'] = 'changed' if self.file_exists_in_commit (file_info['path']) != [] else 'new'
 
         # Update commit changes
-        self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+        self.con.execute("insert or replace into active_commit_changes (hash, path, status) values (?, ?, ?)",
                          (file_info['hash'], file_info['path'], file_info['status']))
 
         self.con.commit()
@@ -254,19 +254,18 @@ class server_db:
         for it in files:
             file_path = it['path']
 
-            # We don't need to do anything if the file doesnt exist
+            # Forget anything done to the file earlier in this commit
+            self.con.execute("delete from active_commit_changes where path = ?", (file_path,))
+
+            # We don't need to do anything else if the file doesnt exist
             the_file = self.file_exists_in_commit(file_path)
-            if the_file == []: return
+            if the_file == []: continue
             file_info = the_file[0]
 
             # Update commit changes
-            already_deleted = self.con.execute("select * from active_commit_changes where status='deleted' and path = ?",
-                                            (file_info['path'],)).fetchall()
-
-            if already_deleted == []:
-                file_info['status'] = 'deleted'
-                self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
-                                (file_info['hash'], file_info['path'], file_info['status']))
+            file_info['status'] = 'deleted'
+            self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+                            (file_info['hash'], file_info['path'], file_info['status']))
 
         self.con.commit()
 
-- 
2.43.0


From 1c99285b89a3acef0f59ec73619980744942626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:13 +0000
Subject: [PATCH 07/44] fix: a resumed commit kept the deletes of the
 interrupted attempt

---
 bversion/storage/server_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index eb4490b..1b49c99 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -220,6 +220,9 @@ class server_db:
         # Add the existing files to the commit
         self.active_files = active_files
 
+        # Only the uploads are worth keeping, the client sends its deletes again
+        self.con.execute("delete from active_commit_changes where status = 'deleted'")
+
         self.con.execute("update active_commit_exists set session_token = ?", (session_token,))
         self.con.commit()
 
-- 
2.43.0


From 0a68d33a664b498cdf30d7a5c43204c035a8f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 08/44] fix: a failed delete left its database transaction open

---
 bversion/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/server.py b/bversion/server.py
index c815333..c84fbbb 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -522,6 +522,9 @@ def delete_files(request: Request, context: ConnectionContext) -> Responce:
         return success()
 
     except Exception: # pylint: disable=broad-except
+        # don't leave a half done transaction open, it would lock other connections out of the database
+        get_server_db_instance_for_thread(repository_path,
+                                          path_override = config['repositories'][repository]['transient_db_path_override']).con.rollback()
         return fail()
 
 
-- 
2.43.0


From 33b7a2eae18450940c5e4202065567f5d6e428f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 09/44] fix: a commit which had already been published could be
 resumed

---
 bversion/server.py                    |  3 ++-
 bversion/storage/versioned_storage.py | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index c84fbbb..a6d4ccb 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -429,7 +429,8 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     commit_files = {}
 
     if active_commit is not None:
-        if active_commit['user'] == request.headers['user'] and active_commit['ip'] == request.remote_addr:
+        if (active_commit['user'] == request.headers['user'] and active_commit['ip'] == request.remote_addr
+            and not data_store.active_commit_is_published()):
             commit_files = data_store.get_active_commit_changes()
             commit_files = [it for it in commit_files if it['status'] != 'deleted']
             data_store.begin(request.headers['user'], request.remote_addr, session_token, resume = True)
diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 0ed9d5e..f4c49d9 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -306,6 +306,17 @@ class versioned_storage:
         return commit_object_hash
 
 
+#===============================================================================
+    def active_commit_is_published(self) -> bool:
+        """ Did the active commit succeed, and was only interrupted before cleaning up? """
+
+        sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+
+        # Several commits can be logged, if an earlier attempt was interrupted and then resumed
+        head = self.get_head()
+        return any(item['item_type'] == 'commit' and item['item_hash'] == head for item in sdb.get_gc_log())
+
+
 #===============================================================================
     def rollback(self) -> None:
         if self.get_active_commit() is None: raise Exception()
@@ -316,9 +327,7 @@ class versioned_storage:
         if gc_log_items != []:
             # If a commit exists and it's hash matches the current head we do not need to do anything
             # The commit succeeded but we failed before deleting the active commit file for some reason
-            # Several commits can be logged, if an earlier attempt was interrupted and then resumed
-            head = self.get_head()
-            if any(item['item_type'] == 'commit' and item['item_hash'] == head for item in gc_log_items):
+            if self.active_commit_is_published():
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
-- 
2.43.0


From 7a49f4ca04b7ea6eb7104903b66e2ab9e3abbd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 10/44] fix: begin_commit took the committing user from the
 request instead of the session

---
 bversion/server.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index a6d4ccb..2ec8fcb 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -429,18 +429,18 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     commit_files = {}
 
     if active_commit is not None:
-        if (active_commit['user'] == request.headers['user'] and active_commit['ip'] == request.remote_addr
+        if (active_commit['user'] == current_user['username'] and active_commit['ip'] == request.remote_addr
             and not data_store.active_commit_is_published()):
             commit_files = data_store.get_active_commit_changes()
             commit_files = [it for it in commit_files if it['status'] != 'deleted']
-            data_store.begin(request.headers['user'], request.remote_addr, session_token, resume = True)
+            data_store.begin(current_user['username'], request.remote_addr, session_token, resume = True)
 
         else:
             data_store.rollback()
-            data_store.begin(request.headers['user'], request.remote_addr, session_token)
+            data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     else:
-        data_store.begin(request.headers['user'], request.remote_addr, session_token)
+        data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     #------------
     return success(data={'partial_commit' : commit_files})
-- 
2.43.0


From 3a8ffeaf67000fbb8ad404133615a31149748f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 11/44] fix: holding the lock of one repository allowed writing
 to another

---
 bversion/server.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index 2ec8fcb..c8aec7c 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -401,14 +401,15 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
                                    path_override = config['repositories'][repository]['transient_db_path_override'])
 
     # ==
-    have_lock = data_store.lock()
+    # A connection can hold the lock of only one repository at a time
+    have_lock = data_store.lock() if context.lock in [False, repository] else False
     if not have_lock:
         return fail(lock_fail_msg)
 
     else:
-        context.lock = True
+        context.lock = repository
         def unlock():
-            if context.lock is True:
+            if context.lock == repository:
                 data_store.unlock()
                 context.lock = False
 
@@ -462,7 +463,7 @@ def push_file(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -506,7 +507,7 @@ def delete_files(request: Request, context: ConnectionContext) -> Responce:
     body_data = request.get_json()
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -545,7 +546,7 @@ def commit(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
-- 
2.43.0


From 1a1208eebd988f48a11ae7740df31b4c2a31107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 12/44] fix: a refused begin_commit kept the repository locked

---
 bversion/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bversion/server.py b/bversion/server.py
index c8aec7c..dd24588 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -421,6 +421,7 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     # handled by the client, and a server interface for this is not needed.
     if data_store.get_head() != request.headers["previous_revision"]:
         if data_store.get_active_commit() is not None: data_store.rollback()
+        context.shutdown_handler()
         return fail(need_to_update_msg)
 
     # if the last active commit was by the same user and ip, get the partial committed files
-- 
2.43.0


From 44092b10489063d9500e587f5d14946a1b16f35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 13/44] fix: committing nothing left the commit open

---
 bversion/storage/versioned_storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index f4c49d9..1568c3c 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -265,7 +265,9 @@ class versioned_storage:
         sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
         current_changes, active_files = sdb.get_commit_state()
 
-        if current_changes == []: return self.get_head()
+        if current_changes == []:
+            self.rollback()
+            return self.get_head()
 
         # Create and store the file tree
         tree_root   = self.write_dir_tree(self.build_dir_tree(active_files))
-- 
2.43.0


From aada3a99a759949949f380604be8e3775befadb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 14/44] fix: a request for another repository lost the state of
 the active commit

---
 bversion/storage/server_db.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 1b49c99..7ce20c4 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -13,19 +13,19 @@ def get_server_db_instance_for_thread(db_file_path, need_to_recreate = False, pa
     if path_override is not None:
         db_file_path = path_override
 
-    old_db_path = getattr(threadLocal, 'old_db_path', '')
-    if old_db_path != db_file_path:
-        need_to_recreate = True
+    # One instance for each database, as they hold the state of the active commit
+    # which must survive a request for another repository on the same connection
+    db_instances = getattr(threadLocal, 'db_instances', None)
+    if db_instances is None:
+        db_instances = threadLocal.db_instances = {}
 
-    db_instance = getattr(threadLocal, 'db_instance', None)
-    if db_instance is None:
+    if db_file_path not in db_instances:
         need_to_recreate = True
 
     if need_to_recreate:
-        threadLocal.db_instance = server_db(db_file_path, path_override = path_override)
-        threadLocal.old_db_path = db_file_path
+        db_instances[db_file_path] = server_db(db_file_path, path_override = path_override)
 
-    return threadLocal.db_instance
+    return db_instances[db_file_path]
 
 
 #=====================================================
-- 
2.43.0


From cd2e6537175d1d903c28ef145fe2be8f9b2931e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:20 +0000
Subject: [PATCH 15/44] fix: one authentication token could be used by
 concurrent requests

---
 bversion/server.py            | 7 +++++--
 bversion/storage/server_db.py | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index dd24588..b71270c 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -166,8 +166,10 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
 
 
             # Everything OK, clean up transient token and
-            # generate a session token for the client
-            sdb.delete_token(auth_token)
+            # generate a session token for the client. Only one of several
+            # concurrent requests can use the same token.
+            if not sdb.delete_token(auth_token):
+                return fail(user_auth_fail_msg)
 
             session_token = sdb.create_session(extend_session_duration, client_ip, user)
 
@@ -177,6 +179,7 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
             })
 
         except Exception: # pylint: disable=broad-except
+            sdb.con.rollback() # don't leave a half done transaction open
             return fail(user_auth_fail_msg)
 
 
diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 7ce20c4..75a3262 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -131,8 +131,9 @@ class server_db:
 
     #===============================================================================
     def delete_token(self, auth_token):
-        self.con.execute("delete from tokens where token = ?", (auth_token,))
+        res = self.con.execute("delete from tokens where token = ?", (auth_token,))
         self.con.commit()
+        return res.rowcount == 1
 
 
     #===============================================================================
-- 
2.43.0


From 8c6d7a9d5ab96f119d6b677106d2f6e712d208dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:20 +0000
Subject: [PATCH 16/44] fix: resuming a session never worked, and bypassed the
 checks made for other requests

---
 bversion/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/server.py b/bversion/server.py
index b71270c..4e21994 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -135,7 +135,7 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
     if 'session_token' in request.headers:
         session_token = request.headers['session_token']
 
-        if sdb.validate_session(session_token, client_ip) != []:
+        if have_authenticated_user(client_ip, repository, session_token.encode('utf8')) is not False:
             return success({
                 'server_version' : str(version_numbers.server_version).encode('utf8'),
                 'session_token'  : session_token
-- 
2.43.0


From c70fd564bb1fc900e95b09bdd0882c538b5e0f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 17/44] fix: saved originals of a file transaction could be
 incomplete, stale or without their times

---
 bversion/storage/journaling_filesystem.py | 52 ++++++++++++++++-------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index ffbd3c7..7aed6a8 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -36,6 +36,11 @@ class journaling_filesystem:
         self.tmp_idx += 1
         return p.join(self.tmp_dir, 'tmp_' + str(self.tmp_idx))
 
+############################################################################################
+    def clear_tmp(self):
+        for itm in os.listdir(self.tmp_dir):
+            os.remove(cpjoin(self.tmp_dir, itm))
+
 ############################################################################################
     def new_backup(self, src: str):
         """ Create a new backup file allocation """
@@ -62,8 +67,23 @@ class journaling_filesystem:
         if self.active_transaction is True:
             raise Exception('Multiple Begin not allowed')
 
+        # The journal is empty, so anything left in tmp belongs to a finished transaction
+        self.clear_tmp()
+
         self.active_transaction = True
 
+############################################################################################
+    def move(self, src: str, dst: str):
+        """ Move a file so that at any time either src is intact, or dst is complete """
+
+        try: os.rename(src, dst)
+        except OSError as e:
+            if e.errno != errno.EXDEV: raise
+
+            shutil.copy2(src, dst + '.bvn_part')
+            os.rename(dst + '.bvn_part', dst)
+            os.remove(src)
+
 ############################################################################################
     def do_action(self, command: dict, write_journal: bool = True):
         """ Implementation for declarative file operations. """
@@ -75,9 +95,8 @@ class journaling_filesystem:
             self.client_db.commit()
 
         d = command['do']
-        if   d[cmd] == 'copy':   shutil.copy(d[src], d[dst])
-        elif d[cmd] == 'move':   shutil.move(d[src], d[dst])
-        elif d[cmd] == 'backup': shutil.move(d[src], self.new_backup(d[src]))
+        if   d[cmd] == 'move':   self.move(d[src], d[dst])
+        elif d[cmd] == 'backup': self.move(d[src], self.new_backup(d[src]))
         elif d[cmd] == 'write' :
             if callable(d[data]): d[data](d[path])
             else: file_put_contents(d[path], d[data])
@@ -115,8 +134,7 @@ class journaling_filesystem:
         self.client_db.commit()
 
         # Clear out the tmp files as they are no longer needed
-        for itm in os.listdir(self.tmp_dir):
-            os.remove(cpjoin(self.tmp_dir, itm))
+        self.clear_tmp()
 
         # ------------------
         self.active_transaction = False
@@ -135,11 +153,12 @@ class journaling_filesystem:
 
         path = self.get_full_file_path(path)
 
-        # if file exists, create a temp copy to allow rollback
+        # if file exists, move it to tmp to allow rollback. A copy would lose the files
+        # times, and may be incomplete if interrupted.
         if os.path.isfile(path):
             tmp_path = self.new_tmp()
             self.do_action({
-                'do'   : ['copy', path, tmp_path],
+                'do'   : ['move', path, tmp_path],
                 'undo' : ['move', tmp_path, path]})
 
         self.do_action(
@@ -152,14 +171,17 @@ class journaling_filesystem:
 
         src = self.get_full_file_path(src); dst = self.get_full_file_path(dst)
 
-        # record where file moved
-        if os.path.isfile(src):
-            # if destination file exists, copy it to tmp first
-            if os.path.isfile(dst):
-                tmp_path = self.new_tmp()
-                self.do_action({
-                    'do'   : ['copy', dst, tmp_path],
-                    'undo' : ['move', tmp_path, dst]})
+        # Check before anything is written to the journal, undoing a move that can't
+        # be done must not touch what is at the destination.
+        if not os.path.exists(src): raise OSError(errno.ENOENT, 'No such file or directory', src)
+        if os.path.isdir(dst):      raise OSError(errno.EISDIR, 'Is a directory', dst)
+
+        # if destination file exists, move it to tmp first
+        if os.path.isfile(dst):
+            tmp_path = self.new_tmp()
+            self.do_action({
+                'do'   : ['move', dst, tmp_path],
+                'undo' : ['move', tmp_path, dst]})
 
         self.do_action(
             {'do'   : ['move', src, dst],
-- 
2.43.0


From e8861a78cecd0ae2df3462dd79ab30c7fbe0dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 18/44] fix: an interrupted or failed rollback of a file
 transaction was not completed

---
 bversion/client.py                        | 29 +++++++++++++----------
 bversion/storage/client_db.py             |  4 ++++
 bversion/storage/journaling_filesystem.py | 12 ++++++++--
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 96953a9..a3cfd53 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -70,18 +70,6 @@ def init(unlocked = False):
         fcntl.flock(lockfile, fcntl.LOCK_EX | fcntl.LOCK_NB)
     except IOError: raise SystemExit('Could not lock working copy')
 
-    #-----------
-    ignore_filters:      str = file_or_default(cpjoin(working_copy_base_path, '.bvn_ignore'), b'').decode('utf8')
-    pull_ignore_filters: str = file_or_default(cpjoin(working_copy_base_path, '.bvn_pull_ignore'), b'').decode('utf8')
-
-    #-----------
-    config['ignore_filters']:      List[str] = ['/.bvn/*', '/.bvn_pull_ignore'] + ignore_filters.splitlines()
-    config['pull_ignore_filters']: List[str] = pull_ignore_filters.splitlines()
-
-    # We append the pull ignore filters to the ignore filters in order to stop the client
-    # sending files to the server that cannot be pulled
-    config['ignore_filters'] += config['pull_ignore_filters']
-
     config['data_dir']:            str       = working_copy_base_path
 
     config['conflict_comparison_file_root']  = cpjoin(config['data_dir'], '.bvn', 'conflict_files')
@@ -95,6 +83,23 @@ def init(unlocked = False):
     journaling_fs = journaling_filesystem(cdb, config['data_dir'], '.bvn')
     data_store = client_filesystem_interface(cdb, journaling_fs)
 
+    # If the last command was killed part way through changing a file, undo it. This has
+    # to be done first as it may have been changing the ignore file.
+    if cdb.get_fs_journal() != []:
+        journaling_fs.rollback()
+
+    #-----------
+    ignore_filters:      str = file_or_default(cpjoin(working_copy_base_path, '.bvn_ignore'), b'').decode('utf8')
+    pull_ignore_filters: str = file_or_default(cpjoin(working_copy_base_path, '.bvn_pull_ignore'), b'').decode('utf8')
+
+    #-----------
+    config['ignore_filters']:      List[str] = ['/.bvn/*', '/.bvn_pull_ignore'] + ignore_filters.splitlines()
+    config['pull_ignore_filters']: List[str] = pull_ignore_filters.splitlines()
+
+    # We append the pull ignore filters to the ignore filters in order to stop the client
+    # sending files to the server that cannot be pulled
+    config['ignore_filters'] += config['pull_ignore_filters']
+
     if server_connection is None:
         server_connection = client_http_request(config['server_domain'])
 
diff --git a/bversion/storage/client_db.py b/bversion/storage/client_db.py
index 5759f37..db53c06 100644
--- a/bversion/storage/client_db.py
+++ b/bversion/storage/client_db.py
@@ -53,6 +53,10 @@ class client_db:
     def commit(self):
         self.con.commit()
 
+    # --------------
+    def rollback(self):
+        self.con.rollback()
+
 
 # ===================================================
 # Handling of system metadata
diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 7aed6a8..d179410 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -51,7 +51,9 @@ class journaling_filesystem:
         backup_name = str(backup_num) + "_" + os.path.basename(src)
         backup_num += 1
 
-        file_put_contents(backup_id_file, bytes(str(backup_num), encoding='utf8'))
+        # replace atomically, the rollback could not be done with an unreadable id
+        file_put_contents(backup_id_file + '_new', bytes(str(backup_num), encoding='utf8'))
+        os.rename(backup_id_file + '_new', backup_id_file)
         return p.join(self.backup_dir, backup_name)
 
 ############################################################################################
@@ -105,11 +107,17 @@ class journaling_filesystem:
     def rollback(self):
         """ Do journal rollback """
 
+        # Discard uncommitted changes to the manifest, they belong to the transaction too
+        self.client_db.rollback()
+
         journ_list = self.client_db.get_fs_journal()
 
         for j_itm in reversed(journ_list):
             try: self.do_action({'do' : j_itm['data']}, write_journal = False)
-            except IOError: pass
+            except IOError:
+                # Nothing to undo if the action had not been done, or had already been undone.
+                # Otherwise the journal must be kept so it can be tried again.
+                if os.path.exists(j_itm['data'][1]): raise
 
             # As each item is completed remove it from the journal. In case
             # something fails during the rollback we can pick up where it stopped.
-- 
2.43.0


From bad09708ccf22669c6049432a7dda64c759b4970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 19/44] fix: the working copy lock was released immediately

---
 bversion/client.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index a3cfd53..a935ab2 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -38,13 +38,14 @@ cdb:               client_db                   = None
 data_store:        client_filesystem_interface = None
 server_connection: client_http_request         = None
 
+working_copy_lock                              = None
 working_copy_base_path: str                    = ''
 relative_cwd: str                              = ''
 
 
 #===============================================================================
 def init(unlocked = False):
-    global cdb, data_store, server_connection, config, working_copy_base_path, relative_cwd
+    global cdb, data_store, server_connection, config, working_copy_base_path, relative_cwd, working_copy_lock
 
     working_copy_base_path, relative_cwd = find_bvn_dir()
 
@@ -64,10 +65,13 @@ def init(unlocked = False):
     except IOError:    raise SystemExit('No BVersion configuration found')
     except ValueError: raise SystemExit('Configuration file syntax error')
 
-    # Lock for sanity check, only one client can use the working copy at any time
+    # Lock for sanity check, only one client can use the working copy at any time.
+    # The lock is held for as long as the file is open, so it must be kept in a global.
+    if working_copy_lock is not None: working_copy_lock.close()
+
     try:
-        lockfile = open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')
-        fcntl.flock(lockfile, fcntl.LOCK_EX | fcntl.LOCK_NB)
+        working_copy_lock = open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')
+        fcntl.flock(working_copy_lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
     except IOError: raise SystemExit('Could not lock working copy')
 
     config['data_dir']:            str       = working_copy_base_path
-- 
2.43.0


From b7ea4b0f0d891913e86a3718668280651eb5c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 20/44] fix: accepting the server version of a locally changed
 file could leave the local version

---
 bversion/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index a935ab2..ddfe5ae 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -621,7 +621,9 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             # Chech we don't already have the file due to a previous run that failed mid-process
             have_file = False
-            if file_in_manifest is not None and file_in_manifest['server_file_hash'] == file_hash:
+            # and that it has not been changed or deleted locally since
+            locally_changed = fle['path'] in client_changes and client_changes[fle['path']]['status'] != 'unchanged'
+            if file_in_manifest is not None and file_in_manifest['server_file_hash'] == file_hash and not locally_changed:
                 have_file = True
 
             # ===================
-- 
2.43.0


From adbd18141a4bac726a3c56cff9ec1f137fabad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 21/44] fix: update could not replace a directory by a file or
 the reverse

---
 bversion/client.py | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index ddfe5ae..6ed1572 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -602,6 +602,28 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         'errors'        : []
     }
 
+    # Files which have been deleted on server and need deleting on client. This has to be done first as
+    # a directory may have been replaced by a file or the reverse.
+    if changes['to_delete_on_client'] != []:
+        print('Removing files deleted on the server...')
+
+        for fle in changes['to_delete_on_client']:
+            print(colored('Deleting file: ' + fle['path'], 'red'))
+
+            try:
+                data_store.fs_delete(fle['path'])
+            except OSError:
+                # If this happens, a file was deleted on the server which
+                # never existed on this client, thus do nothing.
+                pass
+
+            affected_files['deleted_files'].append(fle['path'])
+
+            # Delete the folder if it is now empty
+            try: os.removedirs(os.path.dirname(data_store.jfs.get_full_file_path(fle['path'])))
+            except OSError as e:
+                if e.errno not in [errno.ENOTEMPTY, errno.ENOENT, errno.ENOTDIR]: raise
+
     if changes['client_pull_files'] != []:
         # Filter out pull ignore files
         filtered_pull_files = []
@@ -653,28 +675,6 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             pulled_items += 1
 
-    # Files which have been deleted on server and need deleting on client
-    if changes['to_delete_on_client'] != []:
-        print('Removing files deleted on the server...')
-
-        for fle in changes['to_delete_on_client']:
-            print(colored('Deleting file: ' + fle['path'], 'red'))
-
-            try:
-                data_store.fs_delete(fle['path'])
-            except OSError:
-                # If this happens, a file was deleted on the server which
-                # never existed on this client, thus do nothing.
-                pass
-
-            affected_files['deleted_files'].append(fle['path'])
-
-            # Delete the folder if it is now empty
-            try: os.removedirs(os.path.dirname(data_store.jfs.get_full_file_path(fle['path'])))
-            except OSError as e:
-                if e.errno not in [errno.ENOTEMPTY, errno.ENOENT]: raise
-
-
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
     manifest_meta['have_revision'] = result['head']
-- 
2.43.0


From 3cb488f758318a6d7c50602e2f1f96bec20dd178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:29 +0000
Subject: [PATCH 22/44] fix: a file deleted both locally and on the server
 stayed in the manifest

---
 bversion/client.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 6ed1572..048c3a0 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -612,10 +612,13 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             try:
                 data_store.fs_delete(fle['path'])
-            except OSError:
+            except OSError as e:
+                if e.errno != errno.ENOENT: raise
+
                 # If this happens, a file was deleted on the server which
-                # never existed on this client, thus do nothing.
-                pass
+                # never existed on this client, or was also deleted here.
+                cdb.remove_file_from_manifest(fle['path'])
+                cdb.commit()
 
             affected_files['deleted_files'].append(fle['path'])
 
-- 
2.43.0


From 2ae03e51dcdff373db6c55a44918bb006b647407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:29 +0000
Subject: [PATCH 23/44] fix: update claimed to have reached a revision when
 pulling a file failed

---
 bversion/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 048c3a0..e2ab821 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -678,6 +678,10 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             pulled_items += 1
 
+    # If a file could not be pulled we don't have the revision, the next update has to try again
+    if affected_files['errors'] != []:
+        raise SystemExit('\n'.join(affected_files['errors']))
+
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
     manifest_meta['have_revision'] = result['head']
@@ -688,10 +692,6 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
     ignore(os.remove, config['conflict_resolution_file'])
     ignore(shutil.rmtree, config['conflict_comparison_file_root'])
 
-    # ============================================
-    for item in affected_files['errors']:
-        print(item)
-
     # ==================
     print('\n-------------------------------\n')
     print(colored('At revision: ' + result['head'], 'yellow'))
-- 
2.43.0


From a2c6031ad223c159243481346acbf675d5ee8858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 24/44] fix: a file modified during commit was not reported as
 changed afterwards

---
 bversion/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index e2ab821..3d5fc53 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -11,7 +11,7 @@ import pysodium #type: ignore
 
 #=================================================
 from bversion.common import (cpjoin, get_file_list, find_manifest_changes, make_dirs_if_dont_exist,
-                             manifestFileDetails, get_single_file_info, file_or_default, question_user,
+                             manifestFileDetails, file_or_default, question_user,
                              file_put_contents, file_get_contents, ignore, find_bvn_dir, hash_file)
 
 from bversion.http.client_http_request import client_http_request
@@ -856,7 +856,9 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
                 cdb.remove_file_from_manifest(change['path'])
 
             elif change['status'] == 'new/changed':
-                file_info = get_single_file_info(cpjoin(config['data_dir'], change['path']), change['path'])
+                # use the times from before the file was read, if it has been modified
+                # since then it must show up as changed
+                file_info = {key : client_changes[change['path']][key] for key in ['path', 'created', 'last_mod']}
                 file_info['server_file_hash'] = change['file_info']['hash']
                 cdb.add_file_to_manifest(file_info)
 
-- 
2.43.0


From 108977efc52f153468d0faca1de094ae0f31513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 25/44] fix: a resumed commit included files uploaded before
 which are not to be committed any more

---
 bversion/client.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 3d5fc53..8cfcfd1 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -730,20 +730,35 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
 
     # Acquire the commit lock and check we still have the latest revision
     manifest_meta = cdb.get_system_meta()
-    body, headers = server_connection.request("begin_commit", {
-        "session_token"     : session_token,
-        'user'              : config['user'],
-        'repository'        : config['repository'],
-        "previous_revision" : manifest_meta['have_revision']})
+    push_paths = {fle['path'] for fle in changes['client_push_files']}
 
+    while True:
+        body, headers = server_connection.request("begin_commit", {
+            "session_token"     : session_token,
+            'user'              : config['user'],
+            'repository'        : config['repository'],
+            "previous_revision" : manifest_meta['have_revision']})
+
+
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
 
-    if headers['status'] != 'ok': raise SystemExit(headers['msg'])
 
+        # If we are resuming a partial commit, handle the previously uploaded files
+        # Hash local files to ensure they have not changed and thus need reuploading
+        previous_uploads = json.loads(body)
+        previous_uploads = previous_uploads['partial_commit']
 
-    # If we are resuming a partial commit, handle the previously uploaded files
-    # Hash local files to ensure they have not changed and thus need reuploading
-    previous_uploads = json.loads(body)
-    previous_uploads = previous_uploads['partial_commit']
+        # Everything uploaded becomes part of the commit, so start over if there is something
+        # which is not to be committed any more, or came from another working copy
+        if all(fle['path'] in push_paths for fle in previous_uploads): break
+
+        headers = server_connection.request("commit", {
+            "session_token"  : session_token,
+            'repository'     : config['repository'],
+            'commit_message' : '',
+            'mode'           : 'abort'})[1] # Only care about headers
+
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
 
     filtered_previous = {}
     if len(previous_uploads) != 0:
@@ -751,10 +766,7 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
             print('Checking file from partially complete commit: ' + fle['path'])
             local_path = cpjoin(config['data_dir'], fle['path'])
 
-            if not os.path.isfile(local_path):
-                changes['to_delete_on_server'].append(fle)
-
-            elif fle['hash'] == hash_file(local_path):
+            if os.path.isfile(local_path) and fle['hash'] == hash_file(local_path):
                 filtered_previous[fle['path']] = fle
 
     previous_uploads = filtered_previous
-- 
2.43.0


From 4fd54a2db3eceff4481087a78a6592e6a264a8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:52 +0000
Subject: [PATCH 26/44] fix: whitespace at the start or end of header values
 was lost

---
 bversion/http/http_common.py | 7 ++++++-
 bversion/http/http_server.py | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/bversion/http/http_common.py b/bversion/http/http_common.py
index b9557f2..e8496b9 100644
--- a/bversion/http/http_common.py
+++ b/bversion/http/http_common.py
@@ -16,7 +16,12 @@ def parse_headers(headers_raw: List[bytes]) -> Dict[str, str]:
     headers = {}
     for i in headers_raw:
         split_header = i.split(b':', 1)
-        headers[split_header[0].strip().decode('utf8').lower()] = split_header[1].strip().decode('utf8')
+
+        # only the space written by the sender, whitespace may be part of the value
+        value = split_header[1]
+        if value.startswith(b' '): value = value[1:]
+
+        headers[split_header[0].strip().decode('utf8').lower()] = value.decode('utf8')
 
     return headers
 
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index c38367b..3023de2 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -95,7 +95,7 @@ def HTTPServer(host, port, connection_handler):
                 for k, v in rsp.headers.items():
                     if isinstance(k, str): k=k.encode('utf8')
                     if isinstance(v, str): v=v.encode('utf8')
-                    responce_headers += k + b':' + v + b'\r\n'
+                    responce_headers += k + b': ' + v + b'\r\n'
 
                 responce_headers += b"\r\n"
                 c.sendall(responce_headers)
-- 
2.43.0


From 755965f5a8186f02123b31775dcf72b667948cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 27/44] fix: conflict resolution file did not work for paths
 with a colon or trailing space

---
 bversion/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 8cfcfd1..89905e8 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -383,8 +383,8 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
 
         resolutions = []
         for chunk in chunks:
-            path_sect = chunk[0].split(':')
-            res_sect  = chunk[2].split(':')
+            path_sect = chunk[0].split(':', 1)
+            res_sect  = chunk[2].split(':', 1)
 
             if 'Path' not in path_sect[0]:
                 raise SystemExit('Corrupted resolution file')
@@ -398,7 +398,7 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
                 raise SystemExit('specified resolution must be either "client" or "server"')
 
             resolutions.append({
-                'path' : path_sect[1].strip(),
+                'path' : path_sect[1].lstrip(),
                 'resolution' : resolution
             })
 
-- 
2.43.0


From 0cf3d2891ffd4f4b73e2d5216653dbdcd93b0833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 28/44] fix: an interrupted update with a conflict resolution
 file could not be completed

---
 bversion/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 89905e8..5b58d9f 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -402,11 +402,12 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
                 'resolution' : resolution
             })
 
-        # Verify that the file resolves all conflicts, and that the paths match exactly the paths of conflicting items
+        # Verify that the file resolves all conflicts. It may contain more, those which were
+        # carried out already by an update which was interrupted.
         conflicting_paths = {f['file_info']['path'] for f in changes['conflict_files']}
         resolved_paths    = {f['path'] for f in resolutions}
 
-        unresolved_paths = conflicting_paths ^ resolved_paths
+        unresolved_paths = conflicting_paths - resolved_paths
 
         if len(unresolved_paths) != 0:
             raise SystemExit('The conflict resolution file does not resolve all conflicts')
-- 
2.43.0


From 14726a7fdb9f60cf8526ee20c427c6013d7cf61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 29/44] fix: revert removed the files before downloading them
 and only worked for pull ignored files

---
 bversion/client.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 5b58d9f..6aa31b0 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -929,7 +929,7 @@ def revert(session_token, args):
     # Apply pull ignore filters
     filtered_files_in_revision = {}
     for path, fle in files_in_revision.items():
-        if next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+        if not next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
             filtered_files_in_revision[path] = fle
     files_in_revision = filtered_files_in_revision
 
@@ -952,7 +952,8 @@ def revert(session_token, args):
                 local_files.pop(fle['path'])
 
         for fle in local_files.values():
-            files_to_delete.append(fle['path'])
+            if not next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+                files_to_delete.append(fle['path'])
 
     # ----------------
     else:
@@ -969,7 +970,7 @@ def revert(session_token, args):
             if matches_file:
                 files_to_revert.append(fle['path'])
 
-    if files_to_revert == []:
+    if files_to_revert == [] and files_to_delete == []:
         raise SystemExit('Could not find files in the specified revision')
 
 
@@ -994,9 +995,20 @@ def revert(session_token, args):
         raise SystemExit('Opperation Abort')
 
     # ===============================
-    for file_path in files_to_revert:
+    for file_path in files_to_delete:
         print('Deleting file: ' + file_path)
-        os.remove(cpjoin(working_copy_base_path, file_path))
+
+        try:
+            # When reverting to the local revision the file also needs removing from the manifest,
+            # otherwise it should appear as deleted so that this can be committed.
+            if version_id == meta['have_revision']: data_store.fs_delete(file_path)
+            else: os.remove(cpjoin(working_copy_base_path, file_path))
+        except OSError as e:
+            if e.errno != errno.ENOENT: raise
+
+            if version_id == meta['have_revision']:
+                cdb.remove_file_from_manifest(file_path)
+                cdb.commit()
 
     # ===============================
     for file_path in files_to_revert:
@@ -1006,12 +1018,14 @@ def revert(session_token, args):
             'session_token' : session_token,
             'repository'    : config['repository'],
             'path'          : file_path,
-            'use_head'      : str(int(use_head)),
-            'version_id'    : '' if version_id is None else version_id
+            'use_head'      : str(int(False)), # the head may have changed since the files were listed
+            'version_id'    : version_id
             }, gen = True)
 
 
         if headers['status'] == 'ok':
+            make_dirs_if_dont_exist(data_store.jfs.get_full_file_path(cpjoin(*file_path.split('/')[:-1]) + '/'))
+
             # If we are using the local revision, we need to add the file to the manifest,
             # otherwise just download it so it will appear as a changed file, and can be committed.
             if version_id == meta['have_revision']:
-- 
2.43.0


From dd0bad414ec79faa13a72493370aea766f375b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 30/44] fix: prompts accepted answers in upper case but did not
 act on them

---
 bversion/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/common.py b/bversion/common.py
index 58e12bc..cdc2613 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -46,7 +46,7 @@ def question_user(prompt_text: str, valid_choices) -> str:
         choice = input('> ')
         if choice.lower() in valid_choices: break
 
-    return choice
+    return choice.lower()
 
 ############################################################################
 def ignore(*args):
-- 
2.43.0


From aad5265f762f028ac249356dda23a98307ad3f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 31/44] fix: an interrupted pull-ignore, or pull ignoring by
 hand, could delete the files on the server

---
 bversion/client.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 6aa31b0..0f08ace 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -289,6 +289,11 @@ def find_local_changes(include_unchanged : bool = False) -> Tuple[dict, Dict[str
     old_state = cdb.get_manifest()
     current_state = get_file_list(config['data_dir'])
 
+    # A pull ignored file has not been deleted locally, it's absence must not reach the server
+    old_state = {path : fle for path, fle in old_state.items() if not
+                 next((True for flter in config['pull_ignore_filters']
+                       if fnmatch.fnmatch(path, flter)), False)}
+
     #Apply ignore filters
     current_state = [fle for fle in current_state if not
                      next((True for flter in config['ignore_filters']
@@ -1074,6 +1079,7 @@ def pull_ignore(filters, require_commit_changes):
         if affects_existing:
             affected_local_files.append(fle['path'])
 
+    choice = 'nothing'
     if affected_local_files != []:
         for fle in affected_local_files:
             print(fle)
@@ -1088,6 +1094,21 @@ def pull_ignore(filters, require_commit_changes):
             "They will be added to your pull ignore file in either case.\n",
             valid_choices=['delete', 'nothing'])
 
+    # Add the filters to the pull ignore file. This has to be done before removing any files,
+    # otherwise if we are interrupted they would appear as deleted and be removed from the server.
+    pull_ignore_file_path = cpjoin(working_copy_base_path, '.bvn_pull_ignore')
+    pull_ignore_filters: str = file_or_default(pull_ignore_file_path, b'').decode('utf8')
+    pull_ignore_filters += "\n"
+
+    for flter in filters:
+        pull_ignore_filters += flter + "\n"
+
+    pull_ignore_tmp_path = cpjoin(working_copy_base_path, '.bvn', 'pull_ignore_tmp')
+    file_put_contents(pull_ignore_tmp_path, pull_ignore_filters.encode('utf8'))
+    os.rename(pull_ignore_tmp_path, pull_ignore_file_path)
+
+    # ====================
+    if affected_local_files != []:
         if choice == 'delete':
 
             affected_dirs = {}
@@ -1095,7 +1116,12 @@ def pull_ignore(filters, require_commit_changes):
             for path in affected_local_files:
                 full_path = cpjoin(working_copy_base_path, path)
                 print(colored('Deleting local file: ' + full_path, 'red'))
-                os.remove(full_path)
+
+                # remove from the manifest in the same transaction, if interrupted
+                # it must not appear as deleted when the filter is removed again
+                try: data_store.fs_delete(path)
+                except OSError as e:
+                    if e.errno != errno.ENOENT: raise
 
                 affected_dirs[os.path.dirname(full_path)] = None
 
@@ -1105,6 +1131,10 @@ def pull_ignore(filters, require_commit_changes):
 
                 while True:
                     walking_path = '/' + cpjoin(*split_path)
+                    if not os.path.isdir(walking_path):
+                        split_path.pop()
+                        continue
+
                     contents = os.listdir(walking_path)
 
                     if len(contents) == 0:
@@ -1123,16 +1153,6 @@ def pull_ignore(filters, require_commit_changes):
             cdb.remove_file_from_manifest(path)
         cdb.commit()
 
-    # Add the filters to the pull ignore file
-    pull_ignore_file_path = cpjoin(working_copy_base_path, '.bvn_pull_ignore')
-    pull_ignore_filters: str = file_or_default(pull_ignore_file_path, b'').decode('utf8')
-    pull_ignore_filters += "\n"
-
-    for flter in filters:
-        pull_ignore_filters += flter + "\n"
-
-    file_put_contents(pull_ignore_file_path, pull_ignore_filters.encode('utf8'))
-
 
 #===============================================================================
 def list_versions(session_token):
-- 
2.43.0


From 4ca0e0ad2bac4cab99a0cc0063cb555f87d6def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 32/44] fix: files changed on the server or removed locally
 while pull ignored were not brought back by a full update

---
 bversion/client.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 0f08ace..ae54090 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -290,9 +290,18 @@ def find_local_changes(include_unchanged : bool = False) -> Tuple[dict, Dict[str
     current_state = get_file_list(config['data_dir'])
 
     # A pull ignored file has not been deleted locally, it's absence must not reach the server
-    old_state = {path : fle for path, fle in old_state.items() if not
-                 next((True for flter in config['pull_ignore_filters']
-                       if fnmatch.fnmatch(path, flter)), False)}
+    pull_ignored = [path for path in old_state if
+                    next((True for flter in config['pull_ignore_filters']
+                          if fnmatch.fnmatch(path, flter)), False)]
+
+    for path in pull_ignored:
+        old_state.pop(path)
+
+        # Forget files removed while being ignored, so they can be pulled again
+        if not os.path.lexists(cpjoin(config['data_dir'], path)):
+            cdb.remove_file_from_manifest(path)
+
+    cdb.commit()
 
     #Apply ignore filters
     current_state = [fle for fle in current_state if not
@@ -597,6 +606,12 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         print('Nothing to update')
         return
 
+    # Files which changed on the server while they were pull ignored, and no longer are
+    for fle in changes.get('no_op', []):
+        file_in_manifest = cdb.get_single_file_from_manifest(fle['path'])
+        if file_in_manifest is not None and file_in_manifest['server_file_hash'] != fle['hash']:
+            changes['client_pull_files'].append(fle)
+
     # Files which are in conflict
     if changes['conflict_files'] != []:
         changes = resolve_update_conflicts(session_token, changes, result['head'], testing, test_overrides)
-- 
2.43.0


From 7d7e894f546293791a516d5035ebbdb706b8ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:08 +0000
Subject: [PATCH 33/44] fix: a private key encrypted with a password could not
 be used

---
 bversion/crypto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/crypto.py b/bversion/crypto.py
index a66f5ea..cccffd8 100644
--- a/bversion/crypto.py
+++ b/bversion/crypto.py
@@ -44,7 +44,7 @@ def make_keypair() -> Tuple[bytes, bytes]:
 def unlock_private_key(private_key_b64: str) -> bytes:
     private_key: bytes = base64.b64decode(private_key_b64)
 
-    if private_key[0] == b'y':
+    if private_key[:1] == b'y':
         sbytes: int = pysodium.crypto_pwhash_SALTBYTES
         nbytes: int = pysodium.crypto_box_NONCEBYTES
         salt: bytes = private_key[1:sbytes+1]
-- 
2.43.0


From 49cf8798426c0976b00706c16d9bb366be0d7955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 34/44] fix: nested options in the configuration file could not
 be merged

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index cdc2613..6397fd9 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -1,5 +1,5 @@
 import os.path, hashlib, errno, copy
-import collections
+import collections.abc
 from typing import List, Dict, Any, cast, Tuple
 from typing_extensions import TypedDict
 from termcolor import colored
@@ -8,7 +8,7 @@ from termcolor import colored
 def merge_config(config, parsed_config):
     def dict_merge(dct, merge_dct): # recursive dict merge from https://gist.github.com/angstwad/bf22d1822c38a92ec0a9
         for k in merge_dct.keys():
-            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.Mapping)):
+            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.abc.Mapping)):
                 dict_merge(dct[k], merge_dct[k])
             else: dct[k] = merge_dct[k]
     dict_merge(config, parsed_config)
-- 
2.43.0


From a7d78df132ff02e40cb7b844bcdd9e5cad256ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 35/44] fix: checkout failed, and used the wrong user name

---
 bversion/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index ae54090..7b0d9a2 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -338,9 +338,10 @@ def checkout(args):
     if private_key == '': raise SystemExit('Key is blank, exiting.')
 
     #---------------
+    repository_name = repository_name[0]
     config = {"server_domain" : server_domain,
-                "repository"    : repository_name[0],
-                "user"          : "test",
+                "repository"    : repository_name,
+                "user"          : user,
                 "private_key"   : private_key}
 
     # Validate info is correct by attempting to authenticate
@@ -353,7 +354,7 @@ def checkout(args):
     try: os.makedirs(repository_name)
     except: raise SystemExit('Directory already exists')
     os.makedirs(cpjoin(repository_name, '.bvn'))
-    file_put_contents(cpjoin(repository_name, '.bvn', 'client_configuration.json'), json.dumps(config, indent=4))
+    file_put_contents(cpjoin(repository_name, '.bvn', 'client_configuration.json'), json.dumps(config, indent=4).encode('utf8'))
 
     config["private_key"] = unlocked_key
     os.chdir(repository_name); init(True)
-- 
2.43.0


From 602ecd9e1ef8459af015acc62caaa53f4bd64f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:31 +0000
Subject: [PATCH 36/44] fix: a file with a name of white space could not be
 stored

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 6397fd9..68b0f66 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -114,8 +114,8 @@ def cpjoin(*args: str) -> str:
     if len(args) == 0:
         return ''
 
-    rooted = bool(args[0].strip().startswith('/'))
-    ended  = bool(args[-1].strip().endswith('/'))
+    rooted = bool(args[0].startswith('/'))
+    ended  = bool(args[-1].endswith('/'))
 
     split_items = []
 
-- 
2.43.0


From 954cfe31ad061faf9cc0ded4598caf749625a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:36 +0000
Subject: [PATCH 37/44] fix: deleting a new file after choosing it over the
 server's new file went unnoticed

---
 bversion/client.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 7b0d9a2..004135e 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -614,6 +614,7 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             changes['client_pull_files'].append(fle)
 
     # Files which are in conflict
+    conflict_files = changes['conflict_files']
     if changes['conflict_files'] != []:
         changes = resolve_update_conflicts(session_token, changes, result['head'], testing, test_overrides)
 
@@ -704,6 +705,16 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
     if affected_files['errors'] != []:
         raise SystemExit('\n'.join(affected_files['errors']))
 
+    # Where the client version of a file new on both sides was chosen, the server's version is now
+    # known here, and deleting the file before the next commit is a change to it
+    for fle in conflict_files:
+        if fle['server_status'] == 'Changed' and cdb.get_single_file_from_manifest(fle['file_info']['path']) is None:
+            cdb.add_file_to_manifest({
+                'path'             : fle['file_info']['path'],
+                'last_mod'         : 0,
+                'created'          : 0,
+                'server_file_hash' : fle['file_info']['hash']})
+
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
     manifest_meta['have_revision'] = result['head']
-- 
2.43.0


From 58b19f08de76604c40d0e992b110ef60a2a5b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 38/44] fix: garbage collection removed nothing, and never
 finished

What to remove was the set of missing objects, file objects were looked for
in the index, uploads of a commit which can still be resumed would have been
removed, the lock was kept on failure, and bvn_repo gc could not unpack the
result.
---
 bversion/storage/versioned_storage.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 1568c3c..dffb120 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -584,6 +584,15 @@ class versioned_storage:
         if lock_status is False:
             return False, ['failed to lock']
 
+        try:
+            return self.remove_garbage_objects()
+        finally:
+            self.unlock()
+
+#===============================================================================
+    def remove_garbage_objects(self):
+        """ Must only be called while holding the lock """
+
         head, reachable_objects = self.get_reachable_objects()
         all_objects             = self.get_all_object_hashes()
 
@@ -615,12 +624,17 @@ class versioned_storage:
         index_objects_that_do_exist     =   set(all_objects['index'].keys())
 
         # file objects
-        file_objects_that_should_exist =   set(reachable_objects['files'].keys())
+        # An interrupted commit can still be resumed, and needs what was uploaded already
+        sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+        sdb.db_init()
+        uploaded = {it['hash'] for it in sdb.get_active_commit_changes()}
+
+        file_objects_that_should_exist =   set(reachable_objects['files'].keys()) | uploaded
         file_objects_that_do_exist     =   set(all_objects['files'].keys())
 
         # ===============
-        garbage_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
-        garbage_file_objects = file_objects_that_should_exist - file_objects_that_do_exist
+        garbage_index_objects = index_objects_that_do_exist - index_objects_that_should_exist
+        garbage_file_objects = file_objects_that_do_exist - file_objects_that_should_exist
 
         #================================================================
         # Delete garbage objects
@@ -630,8 +644,7 @@ class versioned_storage:
             os.remove(object_path)
 
         for object_hash in garbage_file_objects:
-            object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
+            object_path = sfs.cpjoin(self.base_path, 'files', object_hash[:2], object_hash[2:])
             os.remove(object_path)
 
-        self.unlock()
-        return True
+        return True, issues
-- 
2.43.0


From 2ffa7a466b4fa47db585b2a1e8678df6084a32e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 39/44] fix: verification missed lost objects, and failed on
 damaged ones

Objects which should exist but do not were reported as garbage, but only if
reading the index had not failed because of them. Damaged index objects and
objects removed by a concurrent rollback ended it with an exception.
---
 bversion/storage/versioned_storage.py | 79 ++++++++++++++++++++-------
 1 file changed, 59 insertions(+), 20 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index dffb120..940d793 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -437,8 +437,12 @@ class versioned_storage:
 
 
 #===============================================================================
-    def get_reachable_objects(self):
-        """ Gets all objects in the filesystem which can be reached by traversing the index """
+    def get_reachable_objects(self, unreadable = None):
+        """
+        Gets all objects in the filesystem which can be reached by traversing the index.
+        Hashes of objects which are missing or damaged are added to 'unreadable' if it is
+        passed, and raise an exception if not.
+        """
 
         reachable_objects = {
             'commits' : {},
@@ -446,7 +450,16 @@ class versioned_storage:
             'files'   : {}
         }
 
-        # TODO this needs to be able to handle missing objects and log them as errors
+        def read(reader, object_hash):
+            try:
+                # The content of an object which was altered says nothing about what should exist
+                object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
+                if sfs.hash_file(object_path) != object_hash: raise IOError('Index object is damaged: ' + object_hash)
+                return reader(object_hash)
+            except (IOError, ValueError):
+                if unreadable is None: raise
+                unreadable.append(object_hash)
+                return None
 
         head = self.get_head()
         if head == 'root':
@@ -455,7 +468,8 @@ class versioned_storage:
         # walk up the commit change to the first version
         pointer = head
         while True:
-            commit = self.read_commit_index_object(pointer)
+            commit = read(self.read_commit_index_object, pointer)
+            if commit is None: break
             reachable_objects['commits'][pointer] = commit
             pointer = commit['parent']
             if pointer == 'root': break
@@ -464,7 +478,9 @@ class versioned_storage:
         def recursive_helper(tree_object_hash):
             nonlocal reachable_objects
 
-            it = self.read_tree_index_object(tree_object_hash)
+            if tree_object_hash in reachable_objects['trees']: return
+            it = read(self.read_tree_index_object, tree_object_hash)
+            if it is None: return
             reachable_objects['trees'][tree_object_hash] = it
 
             for dir_hash in it['dirs'].values():
@@ -488,14 +504,18 @@ class versioned_storage:
             'files' : {}
         }
 
+        def list_dir(path):
+            try: return os.listdir(path)
+            except FileNotFoundError: return [] # removed by a roll back in the mean time
+
         # Enumerate index objects
         for it in os.listdir(sfs.cpjoin(self.base_path, 'index')):
-            for it2 in os.listdir(sfs.cpjoin(self.base_path, 'index', it)):
+            for it2 in list_dir(sfs.cpjoin(self.base_path, 'index', it)):
                 objects['index'][it + it2] = sfs.cpjoin(self.base_path, 'index', it, it2)
 
         # Enumerate file objects
         for it in os.listdir(sfs.cpjoin(self.base_path, 'files')):
-            for it2 in os.listdir(sfs.cpjoin(self.base_path, 'files', it)):
+            for it2 in list_dir(sfs.cpjoin(self.base_path, 'files', it)):
                 objects['files'][it + it2] = sfs.cpjoin(self.base_path, 'files', it, it2)
 
         return objects
@@ -507,7 +527,8 @@ class versioned_storage:
         filesystem to ensure than hashes have not changed.
         """
 
-        head, reachable_objects = self.get_reachable_objects()
+        unreadable: List[str] = []
+        head, reachable_objects = self.get_reachable_objects(unreadable)
         all_objects             = self.get_all_object_hashes()
 
         issues = []
@@ -518,9 +539,12 @@ class versioned_storage:
         number_of_commits = 0
         for object_hash in all_objects['index']:
             object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
-            file_contents = json.loads(sfs.file_get_contents(object_path))
-            if file_contents['type'] == 'commit':
-                number_of_commits += 1
+            try:
+                file_contents = json.loads(sfs.file_get_contents(object_path))
+                if file_contents['type'] == 'commit':
+                    number_of_commits += 1
+            except (FileNotFoundError, ValueError, TypeError, KeyError):
+                pass # Removed in the mean time, or damaged which is found below
 
         if head == 'root' and number_of_commits != 0:
             msg = 'Commits exist, but head is root.'
@@ -529,7 +553,7 @@ class versioned_storage:
             return False, issues
 
         #================================================================
-        # Subtract the two, to find if there are unreachable objects
+        # Subtract the two, to find if there are missing objects
         #================================================================
         # index objects
         index_objects_that_should_exist =   set(reachable_objects['commits'].keys()) \
@@ -542,17 +566,22 @@ class versioned_storage:
         file_objects_that_do_exist     =   set(all_objects['files'].keys())
 
         # ===============
-        garbage_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
-        garbage_file_objects = file_objects_that_should_exist - file_objects_that_do_exist
+        missing_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
+        missing_file_objects = file_objects_that_should_exist - file_objects_that_do_exist
 
         # ===============
-        for it in garbage_index_objects:
-            msg = 'Garbage index object: ' + it
+        for it in unreadable:
+            msg = 'Missing or damaged index object: ' + it
             print(msg)
             issues.append(msg)
 
-        for it in garbage_file_objects:
-            msg = 'Garbage file object: ' + it
+        for it in missing_index_objects:
+            msg = 'Missing index object: ' + it
+            print(msg)
+            issues.append(msg)
+
+        for it in missing_file_objects:
+            msg = 'Missing file object: ' + it
             print(msg)
             issues.append(msg)
 
@@ -561,7 +590,12 @@ class versioned_storage:
         #================================================================
         for object_hash, object_path in all_objects['index'].items():
             print('Rehashing: ' + object_path)
-            current_hash = sfs.hash_file(object_path)
+            try:
+                current_hash = sfs.hash_file(object_path)
+            except FileNotFoundError:
+                if object_hash in index_objects_that_should_exist: raise
+                continue # Part of a commit which was rolled back in the mean time
+
             if object_hash != current_hash:
                 msg = 'Index opject hash has changed: ' + object_hash
                 print(msg)
@@ -569,7 +603,12 @@ class versioned_storage:
 
         for object_hash, object_path in all_objects['files'].items():
             print('Rehashing: ' + object_path)
-            current_hash = sfs.hash_file(object_path)
+            try:
+                current_hash = sfs.hash_file(object_path)
+            except FileNotFoundError:
+                if object_hash in file_objects_that_should_exist: raise
+                continue # Part of a commit which was rolled back in the mean time
+
             if object_hash != current_hash:
                 msg = 'File object hash has changed: ' + object_hash
                 print(msg)
-- 
2.43.0


From 8ae6d9bb663b1855dd8fb3b0e278896b97d79ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 40/44] fix: one repository without a backup prevented
 restoring the others

---
 bversion/repo_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index cfc7eb1..a35dfdc 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -284,6 +284,12 @@ def restore():
         if 'transient_db_path_override' in details:
             path_override = details['transient_db_path_override']
 
+        # Repositories which are not backed up, or did not have any commits when they
+        # were, do not exist on the remote.
+        if not s3_interface.list_remote_objects(s3_conn, repository_name + '/'):
+            print('No backup of repository: ' + repository_name)
+            continue
+
         data_store = versioned_storage(repository_path, path_override = path_override)
 
         # Download head pointer
-- 
2.43.0


From bb214837d7610d52c8aaceab4c9621aeea920915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 41/44] fix: restore accepted truncated and exchanged objects
 from the remote

---
 bversion/repo_manager.py | 45 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index a35dfdc..5c5f13b 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -1,7 +1,7 @@
 import sys, os, time
 from io import BytesIO
 
-from bversion.common import cpjoin, merge_config, make_dirs_if_dont_exist
+from bversion.common import cpjoin, merge_config, make_dirs_if_dont_exist, hash_file
 from bversion.backup import s3_interface, pipeline, crypto
 from bversion.backup.pipeline_common import serialise_pipeline_format
 from bversion.storage.versioned_storage import versioned_storage
@@ -82,6 +82,24 @@ def streaming_download(s3_conn, lconfig, remote_file_path, version_id, file_hand
         file_handle.write(res)
 
 
+#===============================================================================
+def download_repository_object(s3_conn, repository_name, repository_path, object_path):
+    """ Download an object of a repository. Objects are named after the hash of their content,
+    if it does not match the object on the remote has been truncated or replaced. """
+
+    fs_path = cpjoin(repository_path, object_path)
+    make_dirs_if_dont_exist(os.path.dirname(fs_path))
+
+    with open(fs_path, 'wb') as fle:
+        streaming_download(s3_conn, config,
+                           remote_file_path = repository_name + '/' + object_path,
+                           version_id       = None,
+                           file_handle      = fle)
+
+    if hash_file(fs_path) != ''.join(object_path.split('/')[-2:]):
+        raise ValueError('Content of object on remote does not match its hash: ' + object_path)
+
+
 #===============================================================================
 def backup():
     # Connect to the remote
@@ -307,16 +325,10 @@ def restore():
         while True:
             # Download commit
             object_path = commit_pointer[:2] + '/' + commit_pointer[2:]
-            fs_path = cpjoin(repository_path, 'index', object_path)
 
             print('Downloading commit: ' + object_path)
 
-            make_dirs_if_dont_exist(os.path.dirname(fs_path))
-            with open(fs_path, 'wb') as fle:
-                streaming_download(s3_conn, config,
-                                   remote_file_path = repository_name + '/index/' + object_path,
-                                   version_id       = None,
-                                   file_handle      = fle)
+            download_repository_object(s3_conn, repository_name, repository_path, 'index/' + object_path)
 
             commit = data_store.read_commit_index_object(commit_pointer)
 
@@ -326,16 +338,10 @@ def restore():
                 nonlocal tree_objects
 
                 object_path = tree_object_hash[:2] + '/' + tree_object_hash[2:]
-                fs_path = cpjoin(repository_path, 'index', object_path) # pylint: disable=W0640
 
                 print('Downloading tree: ' + object_path)
 
-                make_dirs_if_dont_exist(os.path.dirname(fs_path)) # pylint: disable=W0640
-                with open(fs_path, 'wb') as fle: # pylint: disable=W0640
-                    streaming_download(s3_conn, config,
-                                       remote_file_path = repository_name + '/index/' + object_path, # pylint: disable=W0640
-                                       version_id       = None,
-                                       file_handle      = fle)
+                download_repository_object(s3_conn, repository_name, repository_path, 'index/' + object_path) # pylint: disable=W0640
 
                 it = data_store.read_tree_index_object(tree_object_hash) # pylint: disable=W0640
                 tree_objects[tree_object_hash] = it # pylint: disable=W0640
@@ -354,19 +360,14 @@ def restore():
 
                     print('Downloading file: ' + object_path)
 
-                    make_dirs_if_dont_exist(os.path.dirname(fs_path))
-
                     # Recreate empty files as they don't get stored
                     if fle['hash'] == empty_file_identifier:
+                        make_dirs_if_dont_exist(os.path.dirname(fs_path))
                         with open(fs_path, 'w'):
                             pass
 
                     else:
-                        with open(fs_path, 'wb') as fle:
-                            streaming_download(s3_conn, config,
-                                            remote_file_path = repository_name + '/files/' + object_path,
-                                            version_id       = None,
-                                            file_handle      = fle)
+                        download_repository_object(s3_conn, repository_name, repository_path, 'files/' + object_path)
 
             # update commit pointer if not 'root'
             commit_pointer = commit['parent']
-- 
2.43.0


From ee7fb9e4bc4039d0af2884691bde3613d88f0c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 42/44] fix: a stored file was copied into place, and could be
 found cut short, if renaming failed

---
 bversion/storage/versioned_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 940d793..c658403 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -1,4 +1,4 @@
-import json, hashlib, os, os.path, shutil, fcntl, errno
+import json, hashlib, os, os.path, fcntl, errno
 from  collections import defaultdict
 from datetime import datetime
 
@@ -238,7 +238,7 @@ class versioned_storage:
 
             # ---
             sfs.make_dirs_if_dont_exist(target_base)
-            shutil.move(source_file, target)
+            os.rename(source_file, target)
         else:
             os.remove(source_file)
 
-- 
2.43.0


From 10b3cb3baff2ee511496df3c5829bc8062995233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 43/44] fix: committed revisions could be lost in a power
 failure

---
 bversion/common.py                    |  8 ++++++++
 bversion/storage/versioned_storage.py | 19 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/bversion/common.py b/bversion/common.py
index 68b0f66..385b397 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -89,6 +89,14 @@ def file_put_contents(path: str, data: bytes) -> None:
     with open(path, 'wb') as f:
         f.write(data); f.flush()
 
+############################################################################################
+def force_to_disk(*paths: str) -> None:
+    """ Ensure the contents of files, or the names within directories, survive a power failure """
+    for path in paths:
+        fd = os.open(path, os.O_RDONLY)
+        try:     os.fsync(fd)
+        finally: os.close(fd)
+
 ############################################################################################
 def file_or_default(path: str, default: Any) -> bytes:
     """ Return a default value if a file does not exist """
diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index c658403..6cdeebf 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -57,11 +57,23 @@ class versioned_storage:
         #----
         sfs.make_dirs_if_dont_exist(target_base)
         sfs.file_put_contents(sfs.cpjoin(self.base_path, 'index_tmp'), bytes(serialised, encoding='utf8'))
+        sfs.force_to_disk(sfs.cpjoin(self.base_path, 'index_tmp'))
         os.rename(sfs.cpjoin(self.base_path, 'index_tmp'), sfs.cpjoin(target_base, object_hash[2:]))
 
         return object_hash
 
 
+#===============================================================================
+    def force_object_names(self, object_dir: str, object_hashes: List[str]) -> None:
+        """ The contents of an object are forced to disk before it is moved into place, this
+        ensures that its name survives a power failure also. Objects which don't exist are
+        skipped, as those logged by an attempt which was interrupted may not. """
+
+        object_dir  = sfs.cpjoin(self.base_path, object_dir)
+        sub_dirs    = sorted({sfs.cpjoin(object_dir, object_hash[:2]) for object_hash in object_hashes})
+        sfs.force_to_disk(*filter(os.path.isdir, sub_dirs), object_dir, self.base_path)
+
+
 #===============================================================================
     def read_index_object(self, object_hash: str, expected_object_type: str) -> indexObject:
         # Hashes must only contain hex digits
@@ -238,11 +250,13 @@ class versioned_storage:
 
             # ---
             sfs.make_dirs_if_dont_exist(target_base)
+            sfs.force_to_disk(source_file)
             os.rename(source_file, target)
         else:
             os.remove(source_file)
 
         # Update commit changes
+        self.force_object_names('files', [file_hash])
         sdb.add_to_commit(file_info)
 
         return file_info
@@ -297,9 +311,14 @@ class versioned_storage:
                                                                 'tree_root'      : tree_root,
                                                                 'changes'        : current_changes})
 
+        # Everything the commit consists of must be on disk before anything refers to it
+        self.force_object_names('index', [item['item_hash'] for item in sdb.get_gc_log() if item['item_type'] != 'file'])
+
         #update head, write plus move for atomicity
         sfs.file_put_contents(sfs.cpjoin(self.base_path, 'new_head'), bytes(commit_object_hash, encoding='utf8'))
+        sfs.force_to_disk(sfs.cpjoin(self.base_path, 'new_head'))
         os.rename(sfs.cpjoin(self.base_path, 'new_head'), sfs.cpjoin(self.base_path, 'head'))
+        sfs.force_to_disk(self.base_path)
 
         #and clean up working state
         sdb.clean_commit_state()
-- 
2.43.0


From c393054cb3edd2cfc3e2a9bfe70ef8810a27046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 44/44] fix: a killed update could leave its conflict
 resolutions to be used for later conflicts

---
 bversion/client.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 004135e..67c42ab 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -715,16 +715,18 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
                 'created'          : 0,
                 'server_file_hash' : fle['file_info']['hash']})
 
+    # Delete the conflicts resolution file and recursively delete any conflict files downloaded for comparison.
+    # If this was done after updating the revision and interrupted, the resolutions would be used for later conflicts.
+    try: os.remove(config['conflict_resolution_file'])
+    except FileNotFoundError: pass
+    ignore(shutil.rmtree, config['conflict_comparison_file_root'])
+
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
     manifest_meta['have_revision'] = result['head']
     cdb.update_system_meta(manifest_meta)
     cdb.commit()
 
-    # Delete the conflicts resolution file and recursively delete any conflict files downloaded for comparison
-    ignore(os.remove, config['conflict_resolution_file'])
-    ignore(shutil.rmtree, config['conflict_comparison_file_root'])
-
     # ==================
     print('\n-------------------------------\n')
     print(colored('At revision: ' + result['head'], 'yellow'))
-- 
2.43.0

