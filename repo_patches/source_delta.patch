From 01ffa92b326692dd4cc7910cd59781739c9c919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 01/27] fix: make CAS values unique among objects

CAS values were counted per object from 1, so that an object deleted
(or expired, or evicted) and created again could get the CAS value a
client had seen for its predecessor, and a stale cas command succeeded.
---
 src/memcache/object.cpp | 12 +++++++-----
 src/memcache/object.hpp | 13 ++++++++++++-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index cd57921..8778dd8 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -26,6 +26,8 @@ namespace yrmcds { namespace memcache {
 
 thread_local int g_context = -1;
 
+std::atomic<std::uint64_t> object::m_last_cas{0};
+
 file_flusher::~file_flusher() {
     if( m_fd == -1 ) return;
     if( ::fdatasync(m_fd) == 0 )
@@ -61,7 +63,7 @@ void object::set(const char* p, std::size_t len,
                  std::uint32_t flags_, std::time_t exptime) {
     m_flags = flags_;
     m_exptime = exptime;
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     m_data.reset();
 
@@ -81,7 +83,7 @@ void object::set(const char* p, std::size_t len,
 }
 
 void object::append(const char* p, std::size_t len) {
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     if( len == 0 ) return;
 
@@ -103,7 +105,7 @@ void object::append(const char* p, std::size_t len) {
 }
 
 void object::prepend(const char* p, std::size_t len) {
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     if( len == 0 ) return;
 
@@ -146,7 +148,7 @@ std::uint64_t object::incr(std::uint64_t n) {
                           "%llu", (unsigned long long)u64_value);
     m_data.reset();
     m_data.append(s_value, m_length);
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     return u64_value;
 }
@@ -166,7 +168,7 @@ std::uint64_t object::decr(std::uint64_t n) {
                           "%llu", (unsigned long long)u64_value);
     m_data.reset();
     m_data.append(s_value, m_length);
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     return u64_value;
 }
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index a17cc41..05fe3bd 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -11,6 +11,7 @@
 #include <cybozu/logger.hpp>
 #include <cybozu/util.hpp>
 
+#include <atomic>
 #include <cstddef>
 #include <cstdint>
 #include <ctime>
@@ -164,12 +165,22 @@ public:
     }
 
 private:
+    // Return a new CAS value.
+    //
+    // CAS values are unique among all objects.  If they were counted per
+    // object, an object deleted then created again could have the same
+    // value as the object that a client has seen.
+    static std::uint64_t next_cas() noexcept {
+        return m_last_cas.fetch_add(1, std::memory_order_relaxed) + 1;
+    }
+    static std::atomic<std::uint64_t> m_last_cas;
+
     std::size_t m_length;
     cybozu::dynbuf m_data;
     std::unique_ptr<tempfile> m_file;
     std::uint32_t m_flags;
     std::time_t m_exptime;
-    std::uint64_t m_cas = 1;
+    std::uint64_t m_cas = next_cas();
     mutable unsigned int m_gc_old = 0;
     int m_lock = -1;
     std::thread::id m_unlocker;
-- 
2.43.0


From 92a7e9bb4dc9d13f156c8a3a9b4f489e3684d86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 02/27] fix: do not lose a job or stop request posted before a
 worker waits

---
 cybozu/worker.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index 797a04f..7236093 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -66,7 +66,7 @@ public:
     //
     // The thread will be joined automatically.
     void stop() {
-        m_exit = true;
+        m_exit.store(true, std::memory_order_release);
         m_running.store(true, std::memory_order_release);
         notify();
         m_thread.join();
@@ -76,24 +76,28 @@ public:
     void run() {
         while ( true ) {
             // wait a new job or an exit signal
-            m_running.store(false, std::memory_order_release);
+            //
+            // `m_running` is cleared only after a job.  A job posted before
+            // this thread starts, or a stop request made during a job, would
+            // otherwise be overwritten and lost.
             std::uint64_t i;
             ssize_t n = ::read(m_event, &i, sizeof(i));
             if( n == -1 )
                 throw_unix_error(errno, "read(eventfd)");
-            while( ! m_running.load(std::memory_order_acquire) );
 
-            if( m_exit ) return;
+            if( m_exit.load(std::memory_order_acquire) ) return;
+            std::atomic_thread_fence(std::memory_order_acquire);
 
             m_job(m_buffer);
             m_buffer.reset();
+            m_running.store(false, std::memory_order_release);
         }
     }
 
 private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_running;
-    bool m_exit;
+    std::atomic<bool> m_exit;
     const int m_event;
     dynbuf m_buffer;
     job m_job;
-- 
2.43.0


From 0c00b57e4f355bd807c1c5ef8a47fe4f4451fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 03/27] fix: do not lock or return an expired object by
 Lock-and-Get

---
 src/memcache/sockets.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 5967188..cd5ced0 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -184,6 +184,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     case binary_command::LaGK:
     case binary_command::LaGKQ:
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
+            if( obj.expired() ) return false;
             if( (binary_command::LaG <= cmd.command()) &&
                 (cmd.command() <= binary_command::LaGKQ) ) {
                 if( obj.locked() ) {
@@ -193,7 +194,6 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 obj.lock();
                 add_lock(k);
             }
-            if( obj.expired() ) return false;
             if( cmd.exptime() != mc::binary_request::EXPTIME_NONE ) {
                 obj.touch( cmd.exptime() );
                 if( ! m_slaves.empty() )
-- 
2.43.0


From ccd8cba3f3e050acd8bb2789ce6f27a9cd200313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 04/27] fix: own locks by connection, not by its reusable file
 descriptor

---
 src/memcache/object.cpp  |  2 +-
 src/memcache/object.hpp  |  8 +++++---
 src/memcache/sockets.cpp | 10 ++++++----
 src/memcache/sockets.hpp |  1 +
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 8778dd8..fcbfff3 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -24,7 +24,7 @@ std::uint64_t to_uint64(const char* p, std::size_t len) {
 
 namespace yrmcds { namespace memcache {
 
-thread_local int g_context = -1;
+thread_local std::int64_t g_context = -1;
 
 std::atomic<std::uint64_t> object::m_last_cas{0};
 
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index 05fe3bd..92c62ee 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -26,8 +26,10 @@ namespace yrmcds { namespace memcache {
 
 // Context for object locking.
 //
-// The context is in fact the file descriptor of a client connection.
-extern thread_local int g_context;
+// The context is a number unique to a client connection.  It is not the
+// file descriptor, as a new connection may reuse the descriptor of a closed
+// connection before the locks of the closed one are released.
+extern thread_local std::int64_t g_context;
 
 
 // Purge temporary file contents from the page cache at dtor.
@@ -182,7 +184,7 @@ private:
     std::time_t m_exptime;
     std::uint64_t m_cas = next_cas();
     mutable unsigned int m_gc_old = 0;
-    int m_lock = -1;
+    std::int64_t m_lock = -1;
     std::thread::id m_unlocker;
 };
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index cd5ced0..0a5f353 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -5,7 +5,9 @@
 
 #include <cybozu/util.hpp>
 
+#include <atomic>
 #include <cstddef>
+#include <cstdint>
 #include <cstring>
 #include <sys/socket.h>
 #include <sys/types.h>
@@ -22,6 +24,8 @@ const char NOT_LOCKED[] = "CLIENT_ERROR object is not locked or not found\x0d\x0
 
 const std::memory_order relaxed = std::memory_order_relaxed;
 
+std::atomic<std::int64_t> g_last_context{0};
+
 } // anonymous namespace
 
 namespace yrmcds { namespace memcache {
@@ -34,6 +38,7 @@ memcache_socket::memcache_socket(int fd,
                                  const std::vector<repl_socket*>& slaves)
     : cybozu::tcp_socket(fd),
       m_busy(false),
+      m_context(g_last_context.fetch_add(1, relaxed) + 1),
       m_finder(finder),
       m_hash(hash),
       m_pending(0),
@@ -44,10 +49,7 @@ memcache_socket::memcache_socket(int fd,
 
     m_recvjob = [this](cybozu::dynbuf& buf) {
         // set lock context for objects.
-        with_fd([](int fd) -> bool {
-            g_context = fd;
-            return true;
-        });
+        g_context = m_context;
 
         // load pending data
         if( ! m_pending.empty() ) {
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index f591074..e7661d8 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -69,6 +69,7 @@ public:
 private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_busy;
+    const std::int64_t m_context;
     const std::function<cybozu::worker*()>& m_finder;
     cybozu::hash_map<object>& m_hash;
     cybozu::dynbuf m_pending;
-- 
2.43.0


From 90454834f82bf4d9a8aad02740f77813cccf45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 05/27] fix: treat an expired object as absent in delete, and
 in incr and decr with an initial value

---
 src/memcache/sockets.cpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 0a5f353..5e494f9 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
+#include <string>
 #include <sys/socket.h>
 #include <sys/types.h>
 
@@ -396,6 +397,11 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.quiet() )
+                    r.error( binary_status::NotFound );
+                return false;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -421,7 +427,17 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                const std::string initial = std::to_string(cmd.initial());
+                obj.set(initial.data(), initial.size(), 0, cmd.exptime());
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -459,7 +475,17 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                const std::string initial = std::to_string(cmd.initial());
+                obj.set(initial.data(), initial.size(), 0, cmd.exptime());
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -823,6 +849,11 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
                     r.locked();
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.no_reply() )
+                    r.not_found();
+                return false;
+            }
             if( obj.locked_by_self() )
                 remove_lock(k);
             if( ! cmd.no_reply() )
-- 
2.43.0


From 233e479a1658321ce8c5932787d8ac1d436d22f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 06/27] fix: do not lose a flush requested while another one is
 in effect

---
 src/memcache/gc.cpp      |  6 ++++--
 src/memcache/sockets.cpp |  4 ++--
 src/memcache/stats.cpp   | 21 +++++++++++++++++++++
 src/memcache/stats.hpp   | 12 ++++++++++++
 4 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 31fcbc3..2e99f0e 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -1,6 +1,7 @@
 // (C) 2013 Cybozu.
 
 #include "../config.hpp"
+#include "../global.hpp"
 #include "gc.hpp"
 #include "replication.hpp"
 #include "stats.hpp"
@@ -53,7 +54,8 @@ void gc_thread::run() {
 
 void gc_thread::gc() {
     std::time_t t = g_stats.flush_time.load();
-    bool flush = (t != 0) && (std::time(nullptr) >= t);
+    bool flush = (t != 0) &&
+        (g_current_time.load(std::memory_order_relaxed) >= t);
     unsigned int evict_age = 0;
     if( (! flush) &&
         (g_stats.used_memory.load(std::memory_order_relaxed) >
@@ -144,7 +146,7 @@ void gc_thread::gc() {
     }
 
     if( flush )
-        g_stats.flush_time.store(0);
+        g_stats.end_flush(t);
 }
 
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 5e494f9..6faca5b 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -580,7 +580,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         break;
     case binary_command::Flush:
     case binary_command::FlushQ:
-        g_stats.flush_time.store( cmd.exptime() );
+        g_stats.set_flush_time( cmd.exptime() );
         if( ! cmd.quiet() )
             r.success();
         break;
@@ -955,7 +955,7 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         r.end();
         break;
     case text_command::FLUSH_ALL:
-        g_stats.flush_time.store( cmd.exptime() );
+        g_stats.set_flush_time( cmd.exptime() );
         if( ! cmd.no_reply() )
             r.ok();
         break;
diff --git a/src/memcache/stats.cpp b/src/memcache/stats.cpp
index 07a3cc4..f42f1aa 100644
--- a/src/memcache/stats.cpp
+++ b/src/memcache/stats.cpp
@@ -1,5 +1,6 @@
 // (C) 2013-2014 Cybozu.
 
+#include "../global.hpp"
 #include "stats.hpp"
 
 namespace yrmcds { namespace memcache {
@@ -39,6 +40,7 @@ void statistics::reset() noexcept {
     /* Realtime staticstics. */
     total_objects = 0;
     flush_time = 0;
+    next_flush_time = 0;
     curr_connections = 0;
     total_connections = 0;
     for( auto& v: text_ops )
@@ -52,4 +54,23 @@ void statistics::reset() noexcept {
     cas_badval = 0;
 }
 
+void statistics::set_flush_time(std::time_t t) {
+    std::lock_guard<std::mutex> g(flush_lock);
+    std::time_t now = g_current_time.load(std::memory_order_relaxed);
+    std::time_t pending = flush_time.load();
+    if( pending != 0 && pending <= now ) {
+        // GC may have passed some objects already.
+        next_flush_time = t;
+        return;
+    }
+    flush_time.store(t);
+}
+
+void statistics::end_flush(std::time_t t) {
+    std::lock_guard<std::mutex> g(flush_lock);
+    if( flush_time.load() != t ) return;
+    flush_time.store(next_flush_time);
+    next_flush_time = 0;
+}
+
 }} // namespace yrmcds::memcache
diff --git a/src/memcache/stats.hpp b/src/memcache/stats.hpp
index a50aef1..5b01f34 100644
--- a/src/memcache/stats.hpp
+++ b/src/memcache/stats.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <ctime>
+#include <mutex>
 
 namespace yrmcds { namespace memcache {
 
@@ -22,6 +23,15 @@ struct statistics {
     // Reset all counters.
     void reset() noexcept;
 
+    // Request a flush at time `t`.
+    //
+    // A flush that has not taken effect yet is replaced.  One that has is
+    // kept until GC removes the objects, then `t` comes next.
+    void set_flush_time(std::time_t t);
+
+    // Called when GC has carried out the flush of time `t`.
+    void end_flush(std::time_t t);
+
     /* object counters.  Updated at every GC. */
     alignas(CACHELINE_SIZE)
     std::atomic<std::uint32_t> objects;
@@ -58,6 +68,8 @@ struct statistics {
     std::atomic<std::uint64_t> total_objects;
     alignas(CACHELINE_SIZE)
     std::atomic<std::time_t> flush_time; // abused by "flush_all"
+    std::time_t next_flush_time;         // guarded by flush_lock
+    std::mutex flush_lock;
     alignas(CACHELINE_SIZE)
     std::atomic<std::uint64_t> curr_connections;
     std::atomic<std::uint64_t> total_connections;
-- 
2.43.0


From a7441f744df82a440f2e18dbd5991ab3e669d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 07/27] fix: carry out a binary flush whose expiration is zero

---
 src/memcache/stats.cpp | 1 +
 src/memcache/stats.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memcache/stats.cpp b/src/memcache/stats.cpp
index f42f1aa..d91b40f 100644
--- a/src/memcache/stats.cpp
+++ b/src/memcache/stats.cpp
@@ -57,6 +57,7 @@ void statistics::reset() noexcept {
 void statistics::set_flush_time(std::time_t t) {
     std::lock_guard<std::mutex> g(flush_lock);
     std::time_t now = g_current_time.load(std::memory_order_relaxed);
+    if( t == 0 ) t = now;
     std::time_t pending = flush_time.load();
     if( pending != 0 && pending <= now ) {
         // GC may have passed some objects already.
diff --git a/src/memcache/stats.hpp b/src/memcache/stats.hpp
index 5b01f34..cd20371 100644
--- a/src/memcache/stats.hpp
+++ b/src/memcache/stats.hpp
@@ -23,7 +23,7 @@ struct statistics {
     // Reset all counters.
     void reset() noexcept;
 
-    // Request a flush at time `t`.
+    // Request a flush at time `t`, or now if `t` is zero.
     //
     // A flush that has not taken effect yet is replaced.  One that has is
     // kept until GC removes the objects, then `t` comes next.
-- 
2.43.0


From 2ff772a0d41950c5554a3fa211660aa6f2987fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 08/27] fix: apply max_data_size to cas in the text protocol

---
 src/memcache/sockets.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 6faca5b..10e6695 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -738,6 +738,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         break;
     case text_command::CAS:
         std::tie(p, len) = cmd.key();
+        if( std::get<1>(cmd.data()) > g_config.max_data_size() ) {
+            r.error();
+            return;
+        }
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
             if( obj.locked_by_other() ) {
                 if( ! cmd.no_reply() )
-- 
2.43.0


From 7d511e9a736d3f366fc313e0ef6f0541eb7a6cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 09/27] fix: do not let an acquire exceed the maximum by
 integer overflow

---
 src/counter/object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/counter/object.hpp b/src/counter/object.hpp
index d877147..3149d68 100644
--- a/src/counter/object.hpp
+++ b/src/counter/object.hpp
@@ -23,7 +23,7 @@ public:
     }
 
     bool acquire(std::uint32_t resources, std::uint32_t maximum) noexcept {
-        if( m_consumption + resources > maximum )
+        if( resources > maximum || m_consumption > maximum - resources )
             return false;
 
         std::time_t t = now();
-- 
2.43.0


From 1ef644e161d99d01ff02e9ef38978358a11d9fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 10/27] fix: destruct closed connections even if garbage
 collection runs back-to-back

---
 src/memcache/handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 509c07a..61a4ee9 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -31,6 +31,12 @@ bool handler::gc_ready(std::time_t now) {
             return false;
         m_last_gc = now;
         m_gc_thread = nullptr;
+
+        // Closed connections are not destructed while GC is running.
+        // Let the reactor destruct them before the next GC, or they and
+        // their locks remain as long as GC runs back-to-back.
+        if( m_reactor.has_garbage() && m_new_slaves.empty() )
+            return false;
     }
 
     std::time_t t = g_stats.flush_time.load(relaxed);
-- 
2.43.0


From 6903ba9564e4b036588b29807bb99f954849fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 11/27] fix: do not take the maximum number for an overflow by
 a stale errno

---
 src/memcache/memcache.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 23ba03a..d3668d8 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -54,6 +54,7 @@ inline UInt to_uint(const char* p, bool& result) {
                    "UInt is larger than unsigned long long" );
     result = false;
     char* end;
+    errno = 0;    // strtoull does not clear it
     unsigned long long i = strtoull(p, &end, 10);
     if( i == 0 && p == end ) return 0;
     if( i == std::numeric_limits<unsigned long long>::max() &&
-- 
2.43.0


From 574e995df87eb5111cf241d3efbdfca0cd58f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 12/27] fix: do not run the reactor callback after quit

The callback may run gc(), which destroys resources that the owner of the
reactor is about to use: the replication client socket of a slave was used
after it had been freed.
---
 cybozu/reactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cybozu/reactor.cpp b/cybozu/reactor.cpp
index 2ab8f7d..8e99082 100644
--- a/cybozu/reactor.cpp
+++ b/cybozu/reactor.cpp
@@ -74,6 +74,7 @@ void reactor::run(std::function<void(reactor& r)> callback, int interval) {
     m_running = true;
     while( m_running ) {
         poll();
+        if( ! m_running ) break;
         auto now = crn::steady_clock::now();
         auto diff = crn::duration_cast<crn::milliseconds>(now - last).count();
         if( diff > milli_interval ) {
-- 
2.43.0


From 0b7484388204f577938b8416d5c17d079563323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 13/27] fix: leave the slave loop when a heartbeat cannot be
 sent

A failed send invalidates the replication client socket without stopping
the reactor, so the slave stayed there without a master forever.
---
 src/memcache/sockets.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index e7661d8..0e8dd52 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -164,6 +164,11 @@ private:
         m_reactor->quit();
         return invalidate();
     }
+    virtual void on_invalidate(int fd) override final {
+        // The connection is also invalidated when sending a heartbeat fails.
+        m_reactor->quit();
+        cybozu::tcp_socket::on_invalidate(fd);
+    }
 };
 
 }} // namespace yrmcds::memcache
-- 
2.43.0


From 58d2d2d758b10dd520cf67d465ec28602c36339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 14/27] fix: keep flags and expiration of replicated objects
 without data

Set requests with no data were rejected before flags and exptime were
parsed, but slaves receive such requests for empty objects.
---
 src/memcache/memcache.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index d3668d8..95befb5 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -869,10 +869,13 @@ void binary_request::parse() noexcept {
     case binary_command::ReplaceQ:
     case binary_command::RaU:
     case binary_command::RaUQ:
-        if( extras_len != 8 || key_len == 0 || data_len == 0 )
+        if( extras_len != 8 || key_len == 0 )
             return; // invalid
+        // Slaves need these to replicate objects having no data.
         cybozu::ntoh(p_extra, m_flags);
         m_exptime = binary_exptime(p_extra + 4);
+        if( data_len == 0 )
+            return; // invalid
         break;
     case binary_command::Delete:
     case binary_command::DeleteQ:
-- 
2.43.0


From bc19a74e0a40d0dde91da1f4038c9f695951c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 15/27] fix: do not wrap expiration times when replicating
 objects

Expiration times over 32 bits were truncated, which expired objects
on slaves or made them live with another expiration time.
---
 src/memcache/object.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index 92c62ee..84d2753 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -104,6 +104,8 @@ public:
     }
 
     std::uint32_t exptime() const noexcept {
+        // 0xffffffff is reserved, see EXPTIME_NONE.
+        if( m_exptime > 0xfffffffeLL ) return 0xfffffffeU;
         return (std::uint32_t)m_exptime;
     }
 
-- 
2.43.0


From 02e9e53632a6502b7d3110d3bab2a268675324a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 16/27] fix: erase temporary copies of object data if
 secure_erase is enabled

Prepend swapped the object's buffer with one that was not erased, and
incr/decr copied the data in a std::string.
---
 src/memcache/object.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index fcbfff3..8fafefb 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -4,9 +4,12 @@
 #include "object.hpp"
 #include "stats.hpp"
 
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <fcntl.h>
 #include <limits>
+#include <stdexcept>
 #include <stdio.h>
 #include <string>
 #include <unistd.h>
@@ -14,8 +17,18 @@
 namespace {
 
 std::uint64_t to_uint64(const char* p, std::size_t len) {
-    unsigned long long ull = std::stoull( std::string(p, len) );
-    if( ull > std::numeric_limits<std::uint64_t>::max() )
+    if( len == 0 )
+        throw std::invalid_argument("not a number");
+    // Object data must not be left in the released memory.
+    cybozu::dynbuf buf(len + 1, yrmcds::g_config.secure_erase());
+    buf.append(p, len);
+    buf.append("", 1);
+    char* end;
+    errno = 0;
+    unsigned long long ull = std::strtoull(buf.data(), &end, 10);
+    if( end == buf.data() )
+        throw std::invalid_argument("not a number");
+    if( errno == ERANGE || ull > std::numeric_limits<std::uint64_t>::max() )
         throw std::out_of_range("out of range for uint64");
     return static_cast<std::uint64_t>(ull);
 }
@@ -118,14 +131,14 @@ void object::prepend(const char* p, std::size_t len) {
                 m_file->write(m_data.data(), m_length);
             m_data.reset();
         } else {
-            cybozu::dynbuf buf(new_size);
+            cybozu::dynbuf buf(new_size, g_config.secure_erase());
             buf.append(p, len);
             m_file->read_contents(buf);
             m_file->clear();
             m_file->write(buf.data(), new_size);
         }
     } else {
-        cybozu::dynbuf buf(new_size);
+        cybozu::dynbuf buf(new_size, g_config.secure_erase());
         buf.append(p, len);
         buf.append(m_data.data(), m_length);
         m_data.swap(buf);
-- 
2.43.0


From a34d57808d927396e98769d3312ac52f3644694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 17/27] fix: delay garbage collection for closed connections
 only if it runs back-to-back

A flush should not wait for closed connections to be destructed.
---
 src/memcache/handler.cpp | 10 ++++++++--
 src/memcache/handler.hpp |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 61a4ee9..ee9558d 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -33,10 +33,16 @@ bool handler::gc_ready(std::time_t now) {
         m_gc_thread = nullptr;
 
         // Closed connections are not destructed while GC is running.
-        // Let the reactor destruct them before the next GC, or they and
+        // Let the reactor destruct them from time to time, or they and
         // their locks remain as long as GC runs back-to-back.
-        if( m_reactor.has_garbage() && m_new_slaves.empty() )
+        ++m_adjacent_gcs;
+        if( m_reactor.has_garbage() && m_new_slaves.empty() &&
+            m_adjacent_gcs >= MAX_CONSECUTIVE_GCS ) {
+            m_adjacent_gcs = 0;
             return false;
+        }
+    } else {
+        m_adjacent_gcs = 0;
     }
 
     std::time_t t = g_stats.flush_time.load(relaxed);
diff --git a/src/memcache/handler.hpp b/src/memcache/handler.hpp
index e46ce2e..ed2753e 100644
--- a/src/memcache/handler.hpp
+++ b/src/memcache/handler.hpp
@@ -47,6 +47,7 @@ private:
     std::time_t m_last_gc = 0;
     std::unique_ptr<gc_thread> m_gc_thread = nullptr;
     int m_consecutive_gcs = 0;
+    int m_adjacent_gcs = 0;     // run without a pause in between
     std::vector<repl_socket*> m_slaves;
     std::vector<repl_socket*> m_new_slaves;
     repl_client_socket* m_repl_client_socket = nullptr;
-- 
2.43.0


From d25af0a041343c017dcbdde2b8eea31ab6c58046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 18/27] fix: close connections that the peer has closed

A connection closed by the client in an orderly way stayed open and was
counted until TCP keepalive found it dead minutes later, so that closed
connections used up max_connections and file descriptors.  Close it once
the remaining responses have been sent.
---
 cybozu/tcp.hpp           | 19 +++++++++++++++++++
 src/counter/sockets.cpp  |  4 ++++
 src/memcache/sockets.cpp |  4 ++++
 3 files changed, 27 insertions(+)

diff --git a/cybozu/tcp.hpp b/cybozu/tcp.hpp
index d6d099d..cc3ea42 100644
--- a/cybozu/tcp.hpp
+++ b/cybozu/tcp.hpp
@@ -171,6 +171,25 @@ public:
         });
     }
 
+    // Close the socket after all pending data are sent.
+    //
+    // Unlike <send_close> or <sendv_close>, this never blocks.
+    //
+    // @return `true` if this socket is valid, `false` otherwise.
+    bool close_after_send() {
+        return with_fd([=](int fd) -> bool {
+            lock_guard g(m_lock);
+            m_shutdown = true;
+            if( empty() ) {
+                _flush(fd);
+                return false;
+            }
+            g.unlock();
+            m_cond_write.notify_all();
+            return true;
+        });
+    }
+
     enum class recv_result {
         OK,    // Received some data.
         AGAIN, // No data was available.
diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index 675a653..9b22a86 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -37,6 +37,10 @@ counter_socket::counter_socket(int fd,
             if( res == recv_result::RESET || res == recv_result::NONE ) {
                 buf.reset();
                 release_all();
+                // The peer sends no more requests; do not keep the
+                // connection once the remaining responses are sent.
+                if( res == recv_result::NONE )
+                    close_after_send();
                 break;
             }
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 10e6695..f1af745 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -65,6 +65,10 @@ memcache_socket::memcache_socket(int fd,
             if( res == recv_result::RESET || res == recv_result::NONE ) {
                 buf.reset();
                 unlock_all();
+                // The peer sends no more requests; do not keep the
+                // connection once the remaining responses are sent.
+                if( res == recv_result::NONE )
+                    close_after_send();
                 break;
             }
 
-- 
2.43.0


From c7ee3a760f9da9326808c596b236a7f1f9b57fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 19/27] fix: do not drop live slaves when the clock jumps or
 the reactor was delayed

---
 src/memcache/sockets.cpp |  3 ++-
 src/memcache/sockets.hpp | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index f1af745..3a7e231 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -1016,7 +1016,8 @@ bool repl_socket::on_readable(int fd) {
             cybozu::logger::info() << "The connection to the slave (" << addr << ") has been closed.";
             return invalidate();
         }
-        m_last_heartbeat = g_current_time.load(relaxed);
+        m_last_heartbeat = std::chrono::steady_clock::now();
+        m_suspected = false;
     }
     return true;
 }
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index 0e8dd52..ddfa8cb 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -15,6 +15,7 @@
 #include <cybozu/util.hpp>
 #include <cybozu/worker.hpp>
 
+#include <chrono>
 #include <functional>
 #include <vector>
 
@@ -100,7 +101,7 @@ public:
         : cybozu::tcp_socket(fd, bufcnt),
           m_finder(finder),
           m_recvbuf(MAX_RECVSIZE),
-          m_last_heartbeat(g_current_time.load(std::memory_order_relaxed))
+          m_last_heartbeat(std::chrono::steady_clock::now())
     {
         m_sendjob = [this](cybozu::dynbuf&) {
             with_fd([=](int fd) -> bool {
@@ -109,9 +110,17 @@ public:
         };
     }
 
-    bool timed_out() const {
-        std::time_t now = g_current_time.load(std::memory_order_relaxed);
-        return m_last_heartbeat + g_config.slave_timeout() <= now;
+    bool timed_out() {
+        // the wall clock may jump, hence use steady_clock.
+        if( std::chrono::steady_clock::now() <
+            m_last_heartbeat + std::chrono::seconds(g_config.slave_timeout()) )
+            return false;
+
+        // If the reactor thread was delayed, heartbeats may have arrived
+        // and not yet been read.  Give them a chance.
+        if( m_suspected ) return true;
+        m_suspected = true;
+        return false;
     }
 
     std::string peer_ip() {
@@ -137,7 +146,8 @@ private:
     const std::function<cybozu::worker*()>& m_finder;
     std::vector<char> m_recvbuf;
     cybozu::worker::job m_sendjob;
-    std::time_t m_last_heartbeat;
+    std::chrono::steady_clock::time_point m_last_heartbeat;
+    bool m_suspected = false;
 
     virtual bool on_readable(int) override final;
     virtual bool on_writable(int) override final;
-- 
2.43.0


From f856f32e16741df2b04e6d6f55aa0e58b35f5095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 20/27] fix: do not let the reactor wait for a bucket when it
 destructs connections

---
 cybozu/hash_map.hpp      | 25 +++++++++++++++++++++++++
 cybozu/reactor.hpp       | 15 +++++++++++++++
 src/memcache/sockets.cpp | 17 +++++++++++++++++
 src/memcache/sockets.hpp |  1 +
 4 files changed, 58 insertions(+)

diff --git a/cybozu/hash_map.hpp b/cybozu/hash_map.hpp
index c51a763..e075000 100644
--- a/cybozu/hash_map.hpp
+++ b/cybozu/hash_map.hpp
@@ -177,6 +177,20 @@ public:
             return apply_nolock(key, h, c);
         }
 
+        // Handle an existing object unless other threads use this bucket.
+        // @key  The object's key.
+        // @h    A function to handle an existing object.
+        //
+        // This never waits for other threads.
+        //
+        // @return `false` if other threads use this bucket, `true` otherwise.
+        bool try_handle(const hash_key& key, const handler& h) {
+            std::unique_lock<std::mutex> g(m_lock, std::try_to_lock);
+            if( ! g.owns_lock() ) return false;
+            apply_nolock(key, h, nullptr);
+            return true;
+        }
+
         // Apply `pred` for each object.
         // @pred     Predicate function
         void foreach(const std::function<void(const hash_key&, T&)>& pred) {
@@ -307,6 +321,17 @@ public:
         return get_bucket(key).apply(key, h, c);
     }
 
+    // Handle an existing object unless other threads use its bucket.
+    // @key  The object's key.
+    // @h    A function to handle an existing object.
+    //
+    // This never waits for other threads.
+    //
+    // @return `false` if other threads use the bucket, `true` otherwise.
+    bool try_handle(const hash_key& key, const handler& h) {
+        return get_bucket(key).try_handle(key, h);
+    }
+
     // Apply `pred` for each object.
     // @pred     Predicate function
     void foreach(const std::function<void(const hash_key&, T&)>& pred) {
diff --git a/cybozu/reactor.hpp b/cybozu/reactor.hpp
index da353e3..3c5689b 100644
--- a/cybozu/reactor.hpp
+++ b/cybozu/reactor.hpp
@@ -129,6 +129,17 @@ public:
         return invalidate();
     }
 
+    // Called just before the reactor destructs this resource.
+    //
+    // No other threads are using this resource when this is called.
+    // Subclasses can override this to clean up things that should not
+    // be cleaned up in the destructor because that may block the reactor.
+    //
+    // @return `true` if this can be destructed, `false` to be called later again.
+    virtual bool ready_to_destruct() {
+        return true;
+    }
+
 protected:
     reactor* m_reactor = nullptr;
 
@@ -329,6 +340,10 @@ public:
     // Only the reactor thread can use this.
     void gc() {
         logger::debug() << "reactor: collected garbage resources.";
+        for( auto& res: m_garbage_copy ) {
+            if( ! res->ready_to_destruct() )
+                m_garbage.emplace_back( std::move(res) );
+        }
         m_garbage_copy.clear();
     }
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 3a7e231..471bc73 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -127,6 +127,23 @@ memcache_socket::~memcache_socket() {
     }
 }
 
+bool memcache_socket::ready_to_destruct() {
+    // A worker thread that holds the mutex of a bucket may be waiting for
+    // the reactor to send data to a slow client or to a slow slave.
+    // Hence the reactor must not wait for the mutex.
+    while( ! m_locks.empty() ) {
+        bool done = m_hash.try_handle(
+            m_locks.back().get(),
+            [](const cybozu::hash_key&, object& obj) -> bool {
+                obj.unlock(true);
+                return true;
+            });
+        if( ! done ) return false;
+        m_locks.pop_back();
+    }
+    return true;
+}
+
 bool memcache_socket::on_readable(int) {
     if( m_busy.load(std::memory_order_acquire) ) {
         m_reactor->add_readable(*this);
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index ddfa8cb..0932fdb 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -87,6 +87,7 @@ private:
         g_stats.curr_connections.fetch_sub(1);
         cybozu::tcp_socket::on_invalidate(fd);
     }
+    virtual bool ready_to_destruct() override final;
     virtual bool on_readable(int) override final;
     virtual bool on_writable(int) override final;
 };
-- 
2.43.0


From 14fe558ed11324228c2039a5cfddc5263d19ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 21/27] fix: keep stored values intact when writing their files
 fails

While a worker that failed to write a temporary file was unwinding to
exit the process, other threads could read the object half updated and
send a wrong or truncated value to clients.  Update an object only after
everything that may fail is done.
---
 src/memcache/object.cpp | 71 ++++++++++++++++++++++++-----------------
 src/tempfile.cpp        |  9 ++++--
 2 files changed, 47 insertions(+), 33 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 8fafefb..8d15543 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -72,77 +72,88 @@ object::object(std::uint64_t initial, std::time_t exptime)
     g_stats.total_objects.fetch_add(1, std::memory_order_relaxed);
 }
 
+// The functions to update an object shall not change it until everything
+// that may fail is done.  Otherwise, when writing a file fails, the other
+// threads could read a broken object before the process exits.
+
 void object::set(const char* p, std::size_t len,
                  std::uint32_t flags_, std::time_t exptime) {
-    m_flags = flags_;
-    m_exptime = exptime;
-    m_cas = next_cas();
-    m_gc_old = 0;
-    m_data.reset();
+    cybozu::dynbuf data(0, g_config.secure_erase());
+    std::unique_ptr<tempfile> file;
 
     if( len > g_config.heap_data_limit() ) {
-        if( m_file.get() == nullptr ) {
-            m_file = std::unique_ptr<tempfile>(new tempfile);
-        } else {
-            m_file->clear();
-        }
-        m_file->write(p, len);
+        file = std::unique_ptr<tempfile>(new tempfile);
+        file->write(p, len);
     } else {
-        m_file = nullptr;
         if( len > 0 )
-            m_data.append(p, len);
+            data.append(p, len);
     }
+
+    m_flags = flags_;
+    m_exptime = exptime;
+    m_cas = next_cas();
+    m_gc_old = 0;
+    m_data.swap(data);
+    m_file = std::move(file);
     m_length = len;
 }
 
 void object::append(const char* p, std::size_t len) {
-    m_cas = next_cas();
-    m_gc_old = 0;
-    if( len == 0 ) return;
+    if( len == 0 ) {
+        m_cas = next_cas();
+        m_gc_old = 0;
+        return;
+    }
 
     std::size_t new_size = m_length + len;
     if( new_size > g_config.heap_data_limit() ) {
         if( m_file.get() == nullptr ) {
-            m_file = std::unique_ptr<tempfile>(new tempfile);
+            std::unique_ptr<tempfile> file(new tempfile);
             if( m_length > 0 )
-                m_file->write(m_data.data(), m_length);
+                file->write(m_data.data(), m_length);
+            file->write(p, len);
             m_data.reset();
-            m_file->write(p, len);
+            m_file = std::move(file);
         } else {
             m_file->write(p, len);
         }
     } else {
         m_data.append(p, len);
     }
+    m_cas = next_cas();
+    m_gc_old = 0;
     m_length = new_size;
 }
 
 void object::prepend(const char* p, std::size_t len) {
-    m_cas = next_cas();
-    m_gc_old = 0;
-    if( len == 0 ) return;
+    if( len == 0 ) {
+        m_cas = next_cas();
+        m_gc_old = 0;
+        return;
+    }
 
     std::size_t new_size = m_length + len;
+    cybozu::dynbuf buf(0, g_config.secure_erase());
     if( new_size > g_config.heap_data_limit() ) {
+        std::unique_ptr<tempfile> file(new tempfile);
+        file->write(p, len);
         if( m_file.get() == nullptr ) {
-            m_file = std::unique_ptr<tempfile>(new tempfile);
-            m_file->write(p, len);
             if( m_length > 0 )
-                m_file->write(m_data.data(), m_length);
+                file->write(m_data.data(), m_length);
             m_data.reset();
         } else {
-            cybozu::dynbuf buf(new_size, g_config.secure_erase());
-            buf.append(p, len);
             m_file->read_contents(buf);
-            m_file->clear();
-            m_file->write(buf.data(), new_size);
+            file->write(buf.data(), m_length);
         }
+        m_file = std::move(file);
     } else {
-        cybozu::dynbuf buf(new_size, g_config.secure_erase());
+        buf.prepare(new_size);
         buf.append(p, len);
         buf.append(m_data.data(), m_length);
         m_data.swap(buf);
     }
+    m_cas = next_cas();
+    m_gc_old = 0;
     m_length = new_size;
 }
 
diff --git a/src/tempfile.cpp b/src/tempfile.cpp
index f4a04fa..9428a90 100644
--- a/src/tempfile.cpp
+++ b/src/tempfile.cpp
@@ -9,14 +9,17 @@
 namespace yrmcds {
 
 void tempfile::write(const char* p, std::size_t len) {
+    // m_length shall not be changed until all data are written.
+    std::size_t pos = m_length;
     while( len != 0 ) {
-        ssize_t n = ::write(m_fd, p, len);
+        ssize_t n = ::pwrite(m_fd, p, len, pos);
         if( n == -1 )
-            cybozu::throw_unix_error(errno, "write");
+            cybozu::throw_unix_error(errno, "pwrite");
         p += n;
         len -= n;
-        m_length += n;
+        pos += n;
     }
+    m_length = pos;
 }
 
 void tempfile::clear() {
-- 
2.43.0


From a4d161722de182a1cb925a923ce7c330afcc78b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 22/27] fix: do not exit when receiving fails because a peer
 host has died

---
 cybozu/tcp.hpp           | 11 +++++------
 src/memcache/sockets.cpp | 30 ++++++++++++++----------------
 2 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/cybozu/tcp.hpp b/cybozu/tcp.hpp
index cc3ea42..0f2d49a 100644
--- a/cybozu/tcp.hpp
+++ b/cybozu/tcp.hpp
@@ -213,7 +213,9 @@ public:
                 n = ::recv(fd, p, max_recvsize, 0);
             } while( n == -1 && errno == EINTR );
 
-            return (n != -1) || (errno != ECONNRESET);
+            // Other errors such as ECONNRESET, or ETIMEDOUT when the host
+            // of the peer has died, mean that the connection is lost.
+            return (n != -1) || (errno == EAGAIN) || (errno == EWOULDBLOCK);
         });
 
         if( ! ret ) {
@@ -224,11 +226,8 @@ public:
             return recv_result::NONE;
         }
 
-        if( n == -1 ) {
-            if( errno == EAGAIN || errno == EWOULDBLOCK )
-                return recv_result::AGAIN;
-            throw_unix_error(errno, "recv");
-        }
+        if( n == -1 )
+            return recv_result::AGAIN;
 
         buf.consume(n);
         return recv_result::OK;
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 471bc73..98220ab 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -1011,17 +1011,16 @@ bool repl_socket::on_readable(int fd) {
                 break;
             if( errno == EINTR )
                 continue;
-            if( errno == ECONNRESET ) {
-                std::string addr = "unknown address";
-                try {
-                    addr = cybozu::get_peer_ip_address(fd).str();
-                } catch (...) {
-                    // ignore errors
-                }
-                cybozu::logger::info() << "The connection to the slave (" << addr << ") has been reset.";
-                return invalidate();
+            // Errors other than ECONNRESET, such as ETIMEDOUT when the host
+            // of the peer has died, also mean that the connection is lost.
+            std::string addr = "unknown address";
+            try {
+                addr = cybozu::get_peer_ip_address(fd).str();
+            } catch (...) {
+                // ignore errors
             }
-            cybozu::throw_unix_error(errno, "recv");
+            cybozu::logger::info() << "The connection to the slave (" << addr << ") has been reset.";
+            return invalidate();
         }
         if( n == 0 ) {
             std::string addr = "unknown address";
@@ -1066,12 +1065,11 @@ bool repl_client_socket::on_readable(int fd) {
                 break;
             if( errno == EINTR )
                 continue;
-            if( errno == ECONNRESET ) {
-                cybozu::logger::warning() << "The connection to master has been reset.";
-                m_reactor->quit();
-                return invalidate();
-            }
-            cybozu::throw_unix_error(errno, "recv");
+            // Errors other than ECONNRESET also mean that the connection
+            // is lost.  See repl_socket::on_readable.
+            cybozu::logger::warning() << "The connection to master has been reset.";
+            m_reactor->quit();
+            return invalidate();
         }
         if( n == 0 ) {
             cybozu::logger::info() << "The connection to master has been closed.";
-- 
2.43.0


From fef135b17f565893a6b317315d236d133cdc1fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:17 +0000
Subject: [PATCH 23/27] fix: do not exit when VIP cannot be checked for lack of
 file descriptors

---
 src/memcache/gc.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 2e99f0e..eec9e38 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -8,11 +8,28 @@
 
 #include <algorithm>
 #include <cstdlib>
+#include <exception>
+
+namespace {
+
+// Return `false` if this node has lost VIP.
+bool has_vip() {
+    try {
+        return cybozu::has_ip_address(yrmcds::g_config.vip());
+    } catch( const std::exception& e ) {
+        // For instance, there may be no free file descriptors now.
+        // This will be checked again at the next GC.
+        cybozu::logger::error() << "Failed to check VIP: " << e.what();
+        return true;
+    }
+}
+
+} // anonymous namespace
 
 namespace yrmcds { namespace memcache {
 
 void gc_thread::run() {
-    if( ! cybozu::has_ip_address(g_config.vip()) ) {
+    if( ! has_vip() ) {
         cybozu::logger::error() << "VIP has been lost.  Exiting quickly...";
         std::quick_exit(2);
     }
-- 
2.43.0


From 4373dfb447c970df9456c7e7ec1b92ecd3d308cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 24/27] fix: do not lose a flush when a delayed one is
 requested right after it

A flush that takes effect while GC carries out another one was replaced
by a flush requested later, even if the later one was to take effect in
the future.  Objects stored before the lost flush came back.
---
 src/memcache/stats.cpp | 12 ++++++++++++
 src/memcache/stats.hpp |  1 +
 2 files changed, 13 insertions(+)

diff --git a/src/memcache/stats.cpp b/src/memcache/stats.cpp
index d91b40f..4478336 100644
--- a/src/memcache/stats.cpp
+++ b/src/memcache/stats.cpp
@@ -41,6 +41,7 @@ void statistics::reset() noexcept {
     total_objects = 0;
     flush_time = 0;
     next_flush_time = 0;
+    flush_again = false;
     curr_connections = 0;
     total_connections = 0;
     for( auto& v: text_ops )
@@ -61,6 +62,13 @@ void statistics::set_flush_time(std::time_t t) {
     std::time_t pending = flush_time.load();
     if( pending != 0 && pending <= now ) {
         // GC may have passed some objects already.
+        if( t <= now ) {
+            flush_again = true;
+            next_flush_time = 0;
+            return;
+        }
+        if( next_flush_time != 0 && next_flush_time <= now )
+            flush_again = true;
         next_flush_time = t;
         return;
     }
@@ -70,6 +78,10 @@ void statistics::set_flush_time(std::time_t t) {
 void statistics::end_flush(std::time_t t) {
     std::lock_guard<std::mutex> g(flush_lock);
     if( flush_time.load() != t ) return;
+    if( flush_again ) {
+        flush_again = false;
+        return;
+    }
     flush_time.store(next_flush_time);
     next_flush_time = 0;
 }
diff --git a/src/memcache/stats.hpp b/src/memcache/stats.hpp
index cd20371..ff98656 100644
--- a/src/memcache/stats.hpp
+++ b/src/memcache/stats.hpp
@@ -69,6 +69,7 @@ struct statistics {
     alignas(CACHELINE_SIZE)
     std::atomic<std::time_t> flush_time; // abused by "flush_all"
     std::time_t next_flush_time;         // guarded by flush_lock
+    bool flush_again;                    // guarded by flush_lock
     std::mutex flush_lock;
     alignas(CACHELINE_SIZE)
     std::atomic<std::uint64_t> curr_connections;
-- 
2.43.0


From f1e483da871733d1a0ad6d4ce8dc7300e77a87da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 25/27] fix: do not leave removed objects on a slave that is
 joining

Workers and a GC that have started before a slave joins do not know the
slave.  Objects replicated by other workers and then removed by them
remained on the slave.  Send nothing to a slave until GC starts to send
all objects to it.
---
 src/memcache/handler.cpp     |  2 ++
 src/memcache/replication.cpp | 18 ++++++++++++------
 src/memcache/sockets.hpp     | 11 +++++++++++
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index ee9558d..2a10512 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -140,6 +140,8 @@ void handler::on_master_interval() {
     }
 
     if( gc_ready(g_current_time.load(relaxed)) ) {
+        for( repl_socket* s: m_new_slaves )
+            s->start_replication();
         m_gc_thread = std::unique_ptr<gc_thread>(
             new gc_thread(m_hash, m_slaves, m_new_slaves));
         m_new_slaves.clear();
diff --git a/src/memcache/replication.cpp b/src/memcache/replication.cpp
index 2ec94d0..c8c916d 100644
--- a/src/memcache/replication.cpp
+++ b/src/memcache/replication.cpp
@@ -50,8 +50,10 @@ void repl_object(const std::vector<repl_socket*>& slaves,
         {key.data(), key.length()},
         {data.data(), data.size()}
     };
-    for( cybozu::tcp_socket* s: slaves )
-        s->sendv(iov, 4, flush);
+    for( repl_socket* s: slaves ) {
+        if( s->replicating() )
+            s->sendv(iov, 4, flush);
+    }
 }
 
 void repl_touch(const std::vector<repl_socket*>& slaves,
@@ -65,8 +67,10 @@ void repl_touch(const std::vector<repl_socket*>& slaves,
         {extras, sizeof(extras)},
         {key.data(), key.length()}
     };
-    for( cybozu::tcp_socket* s: slaves )
-        s->sendv(iov, 3, true);
+    for( repl_socket* s: slaves ) {
+        if( s->replicating() )
+            s->sendv(iov, 3, true);
+    }
 }
 
 void repl_delete(const std::vector<repl_socket*>& slaves,
@@ -77,8 +81,10 @@ void repl_delete(const std::vector<repl_socket*>& slaves,
         {header, sizeof(header)},
         {key.data(), key.length()}
     };
-    for( cybozu::tcp_socket* s: slaves )
-        s->sendv(iov, 2, false);
+    for( repl_socket* s: slaves ) {
+        if( s->replicating() )
+            s->sendv(iov, 2, false);
+    }
 }
 
 std::size_t repl_recv(const char* p, std::size_t len,
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index 0932fdb..d497416 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -15,6 +15,7 @@
 #include <cybozu/util.hpp>
 #include <cybozu/worker.hpp>
 
+#include <atomic>
 #include <chrono>
 #include <functional>
 #include <vector>
@@ -137,6 +138,15 @@ public:
         return addr;
     }
     
+    // Start to send updates.
+    //
+    // This is called just before GC starts to send all objects to this
+    // slave.  Updates are not sent until then because objects removed by
+    // workers or GC not aware of this slave would remain on the slave.
+    void start_replication() noexcept { m_started = true; }
+
+    bool replicating() const noexcept { return m_started; }
+
     virtual void on_buffer_full() override {
         cybozu::logger::warning()
             << "Replication buffer is full. "
@@ -149,6 +159,7 @@ private:
     cybozu::worker::job m_sendjob;
     std::chrono::steady_clock::time_point m_last_heartbeat;
     bool m_suspected = false;
+    std::atomic<bool> m_started{false};
 
     virtual bool on_readable(int) override final;
     virtual bool on_writable(int) override final;
-- 
2.43.0


From 20da4d09ee207047d2eb6459bfbf07bce8c05a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 26/27] fix: keep running GC when the clock has been set back

GC was not run until the clock caught up.  Meanwhile a master that had
lost VIP kept serving, and new slaves were not sent the objects.
---
 src/memcache/handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 2a10512..e161259 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -61,7 +61,8 @@ bool handler::gc_ready(std::time_t now) {
         return true;
     }
 
-    if( now > (m_last_gc + g_config.gc_interval()) ) {
+    // The clock may have been set back.
+    if( now > (m_last_gc + g_config.gc_interval()) || now < m_last_gc ) {
         m_consecutive_gcs = 0;
         return true;
     }
-- 
2.43.0


From df3cc14f7cabfd877071e3c958b8991eecdafa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:39 +0000
Subject: [PATCH 27/27] fix: update the clock before serving as master

---
 src/server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server.cpp b/src/server.cpp
index 9fdf23e..fdceadf 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -128,6 +128,9 @@ void server::serve_slave() {
 void server::serve_master() {
     cybozu::logger::info() << "Entering master mode";
 
+    // The clock has not been updated while waiting for the VIP.
+    g_current_time.store(std::time(nullptr), std::memory_order_relaxed);
+
     for( auto& handler: m_handlers )
         handler->on_master_start();
 
-- 
2.43.0

