From 7fce047f768c6981c64d45d40ceebc054b598b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 01/21] fix: reject negative sizes in the response header

A broken or malicious server could send meta_size/data_size/message_size values that
are negative but still add up, which moved the read position of the client stream
out of its receive buffer (or aborted the process later on).
---
 src/sofa/pbrpc/rpc_message_stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/rpc_message_stream.h b/src/sofa/pbrpc/rpc_message_stream.h
index 4e5ccb4..979e7f3 100644
--- a/src/sofa/pbrpc/rpc_message_stream.h
+++ b/src/sofa/pbrpc/rpc_message_stream.h
@@ -687,7 +687,10 @@ private:
 #endif
                 return -1;
             }
-            if (_receiving_header.meta_size + _receiving_header.data_size != _receiving_header.message_size)
+            if (_receiving_header.meta_size < 0 || _receiving_header.data_size < 0
+                    || _receiving_header.message_size < 0
+                    || _receiving_header.message_size - _receiving_header.meta_size
+                        != _receiving_header.data_size)
             {
 #if defined( LOG )
                 LOG(ERROR) << "identify_message_header(): " << RpcEndpointToString(_remote_endpoint)
-- 
2.43.0


From abbef33debf1fe78f4960593b1484a92162ce786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 02/21] fix: keep the 64-bit remaining body length in the HTTP
 request parser

---
 src/sofa/pbrpc/http_rpc_request_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request_parser.cc b/src/sofa/pbrpc/http_rpc_request_parser.cc
index b2fdf5a..e6da380 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/http_rpc_request_parser.cc
@@ -91,7 +91,7 @@ int HTTPRpcRequestParser::Parse(const char* buf,
     }
     if (_state == PS_BODY)
     {
-        int bytes_remain = _content_length - _req->_req_body->TotalCount();
+        int64 bytes_remain = _content_length - _req->_req_body->TotalCount();
         if (bytes_remain == 0)
         {
             return 1;
@@ -100,7 +100,7 @@ int HTTPRpcRequestParser::Parse(const char* buf,
         {
             return 0;
         }
-        int consume = std::min(data_size, bytes_remain);
+        int consume = static_cast<int>(std::min<int64>(data_size, bytes_remain));
         _req->_req_body->Append(BufHandle(const_cast<char*>(buf), consume, offset));
         *bytes_consumed += consume;
         if (_content_length == _req->_req_body->TotalCount())
-- 
2.43.0


From 4e8aa619f499d9c9af38aef4207aff3dc46e2bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:10 +0000
Subject: [PATCH 03/21] fix: never revive a connection that was closed while
 being set up

---
 src/sofa/pbrpc/rpc_byte_stream.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index a3b6dd7..4c2bc78 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -135,7 +135,11 @@ public:
 
         _last_rw_ticks = _ticks;
 
-        _status = STATUS_CONNECTING;
+        // may have been closed already
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTING, (int)STATUS_INIT) != STATUS_INIT)
+        {
+            return;
+        }
         _socket.async_connect(_remote_endpoint,
                 boost::bind(&RpcByteStream::on_connect, shared_from_this(), _1));
         if (_connect_timeout > 0) 
@@ -218,7 +222,11 @@ public:
             return;
         }
 
-        _status = STATUS_CONNECTED;
+        // may have been closed already
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTED, (int)STATUS_INIT) != STATUS_INIT)
+        {
+            return;
+        }
         trigger_receive();
         trigger_send();
     }
@@ -407,7 +415,11 @@ private:
                 RpcEndpointToString(_remote_endpoint).c_str());
 #endif
 
-        _status = STATUS_CONNECTED;
+        // may have been closed at the same time
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTED, (int)STATUS_CONNECTING) != STATUS_CONNECTING)
+        {
+            return;
+        }
         _timer.cancel();
 
         trigger_receive();
-- 
2.43.0


From 36440e3df446b4c009f96a5db9ff77bceaf424f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 04/21] fix: never index the hex tables with a negative
 character

---
 src/sofa/pbrpc/bin2ascii.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/bin2ascii.h b/src/sofa/pbrpc/bin2ascii.h
index 7284ba0..d127125 100644
--- a/src/sofa/pbrpc/bin2ascii.h
+++ b/src/sofa/pbrpc/bin2ascii.h
@@ -42,8 +42,8 @@ inline std::string hex2bin(const std::string &s)
 	std::string r;
 	r.reserve(s.size() / 2);
 	for (size_t i = 0; i < s.size(); i += 2) {
-		char hi = lookup[(size_t)s[i]];
-		char lo = lookup[(size_t)s[i+1]];
+		char hi = lookup[(unsigned char)s[i]];
+		char lo = lookup[(unsigned char)s[i+1]];
 		if (0x80 & (hi | lo))
 			throw std::runtime_error("Invalid hex data: " + s.substr(i, 6));
 		r.push_back((hi << 4) | lo);
@@ -57,7 +57,7 @@ inline std::string bin2hex(const std::string &s)
 	std::string r;
 	r.reserve(s.size() * 2);
 	for (size_t i = 0; i < s.size(); i++) {
-		char hi = s[i] >> 4;
+		char hi = (s[i] >> 4) & 0xf;
 		char lo = s[i] & 0xf;
 		r.push_back(lookup[(size_t)hi]);
 		r.push_back(lookup[(size_t)lo]);
-- 
2.43.0


From e421f33c642ac8b5c0d58b36fbaad097e96694fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 05/21] fix: escape every control character in
 json_escape_string

---
 src/sofa/pbrpc/string_utils.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/string_utils.cc b/src/sofa/pbrpc/string_utils.cc
index 6fd569f..6304e36 100644
--- a/src/sofa/pbrpc/string_utils.cc
+++ b/src/sofa/pbrpc/string_utils.cc
@@ -341,7 +341,15 @@ void StringUtils::json_escape_string(std::ostream& os, const char* src, int src_
             case '\r': os << "\\r"; break;
             case '\t': os << "\\t"; break;
             case '\0': os << "\\u0000"; break;
-            default: os << c;
+            default:
+                if (static_cast<unsigned char>(c) < 0x20)
+                {
+                    os << "\\u00" << "0123456789abcdef"[c >> 4] << "0123456789abcdef"[c & 0xf];
+                }
+                else
+                {
+                    os << c;
+                }
         }
     }
 }
-- 
2.43.0


From e65d37da491b4d64e750dd0d41e265e66a09d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:11 +0000
Subject: [PATCH 06/21] fix: report unrepresentable JSON numbers and malformed
 base64 instead of aborting

---
 src/sofa/pbrpc/pbjson.cc | 41 ++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/sofa/pbrpc/pbjson.cc b/src/sofa/pbrpc/pbjson.cc
index 341a907..37fe3f4 100644
--- a/src/sofa/pbrpc/pbjson.cc
+++ b/src/sofa/pbrpc/pbjson.cc
@@ -287,6 +287,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsInt())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Number out of range");
+                }
                 if (repeated)
                 {
                     ref->AddInt32(msg, field, (int32_t) json->GetInt());
@@ -303,6 +307,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsUint())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Number out of range");
+                }
                 if (repeated)
                 {
                     ref->AddUInt32(msg, field, json->GetUint());
@@ -319,6 +327,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsInt64())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Number out of range");
+                }
                 if (repeated)
                 {
                     ref->AddInt64(msg, field, json->GetInt64());
@@ -335,6 +347,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsUint64())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Number out of range");
+                }
                 if (repeated)
                 {
                     ref->AddUInt64(msg, field, json->GetUint64());
@@ -405,25 +421,22 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 std::string str_value(value, str_size);
                 if (field->type() == FieldDescriptor::TYPE_BYTES)
                 {
-                    if (repeated)
+                    try
                     {
-                        ref->AddString(msg, field, b64_decode(str_value));
+                        str_value = b64_decode(str_value);
                     }
-                    else
+                    catch (const std::runtime_error& e)
                     {
-                        ref->SetString(msg, field, b64_decode(str_value));
+                        RETURN_ERR(ERR_INVALID_JSON, e.what());
                     }
                 }
+                if (repeated)
+                {
+                    ref->AddString(msg, field, str_value);
+                }
                 else
                 {
-                    if (repeated)
-                    {
-                        ref->AddString(msg, field, str_value);
-                    }
-                    else
-                    {
-                        ref->SetString(msg, field, str_value);
-                    }
+                    ref->SetString(msg, field, str_value);
                 }
                 break;
             }
@@ -438,6 +451,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 const EnumValueDescriptor *ev = 0;
                 if (json->GetType() == rapidjson::kNumberType)
                 {
+                    if (!json->IsInt())
+                    {
+                        RETURN_ERR(ERR_INVALID_JSON, "Number out of range");
+                    }
                     ev = ed->FindValueByNumber(json->GetInt());
                 }
                 else if (json->GetType() == rapidjson::kStringType)
-- 
2.43.0


From c3d36b2d98cc367aca65ffceca3d22488f0b833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:37 +0000
Subject: [PATCH 07/21] fix: do not enable the SSE2 white-space scan of
 rapidjson, which reads past the end of the text

---
 src/rapidjson/rapidjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rapidjson/rapidjson.h b/src/rapidjson/rapidjson.h
index cc467ba..7acb2aa 100644
--- a/src/rapidjson/rapidjson.h
+++ b/src/rapidjson/rapidjson.h
@@ -47,7 +47,7 @@ typedef unsigned __int64 uint64_t;
 // RAPIDJSON_SSE2/RAPIDJSON_SSE42/RAPIDJSON_SIMD
 
 // Enable SSE2 optimization.
-#define RAPIDJSON_SSE2
+//#define RAPIDJSON_SSE2
 
 // Enable SSE4.2 optimization.
 //#define RAPIDJSON_SSE42
-- 
2.43.0


From e8a74cab2f7e4e53f34f6ac729933fde0178dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 08/21] fix: treat a failed response with a success error code
 as malformed instead of aborting the client

---
 src/sofa/pbrpc/rpc_client_stream.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_client_stream.h b/src/sofa/pbrpc/rpc_client_stream.h
index 4a80904..c7d6e47 100644
--- a/src/sofa/pbrpc/rpc_client_stream.h
+++ b/src/sofa/pbrpc/rpc_client_stream.h
@@ -259,6 +259,18 @@ private:
 #endif
                 cntl->Done(RPC_ERROR_PARSE_RESPONSE_MESSAGE, "rpc meta: \"error_code\" field not set");
             }
+            else if (meta.error_code() == RPC_SUCCESS)
+            {
+#if defined( LOG )
+                LOG(ERROR) << "on_received(): " << RpcEndpointToString(_remote_endpoint)
+                           << " {" << meta.sequence_id() << "}"
+                           << ": bad rpc meta: failed with a success \"error_code\"";
+#else
+                SLOG(ERROR, "on_received(): %s {%lu}: bad rpc meta: failed with a success \"error_code\"",
+                        RpcEndpointToString(_remote_endpoint).c_str(), meta.sequence_id());
+#endif
+                cntl->Done(RPC_ERROR_PARSE_RESPONSE_MESSAGE, "rpc meta: failed with a success \"error_code\"");
+            }
             else if (!meta.has_reason())
             {
 #if defined( LOG )
-- 
2.43.0


From 5788054860c5bda8248ebd4f0a8af44f4a956eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 09/21] fix: keep a repeating timeout callback alive while it
 runs and never miss it in erase() or clear()

---
 src/sofa/pbrpc/timeout_manager_impl.cc | 43 ++++++++++++--------------
 src/sofa/pbrpc/timeout_manager_impl.h  |  8 ++++-
 2 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/sofa/pbrpc/timeout_manager_impl.cc b/src/sofa/pbrpc/timeout_manager_impl.cc
index 0a37d40..0be1517 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.cc
+++ b/src/sofa/pbrpc/timeout_manager_impl.cc
@@ -70,10 +70,7 @@ void TimeoutManagerImpl::clear()
         }
     }
     for (EventVec::iterator it = cleared.begin(); it != cleared.end(); ++it) {
-        Callback* callback = it->callback;
-        bool should_delete = !callback->IsSelfDelete();
-        callback->Run(it->id, TimeoutManager::CLEARED);
-        if (should_delete) delete callback;
+        it->callback->Run(it->id, TimeoutManager::CLEARED);
     }
 }
 
@@ -99,18 +96,16 @@ TimeoutManagerImpl::Id TimeoutManagerImpl::add_repeating(int64 interval, Callbac
 
 bool TimeoutManagerImpl::erase(Id id)
 {
-    Callback* callback = NULL;
+    EventVec erased;
     {
         ScopedLocker<MutexLock> _(_timeouts_lock);
         IdIndex& by_id = _timeouts.get<BY_ID>();
         IdIndex::iterator find = by_id.find(id);
         if (find == by_id.end()) return false;
-        callback = find->callback;
+        erased.push_back(*find);
         by_id.erase(find);
     }
-    bool should_delete = !callback->IsSelfDelete();
-    callback->Run(id, TimeoutManager::ERASED);
-    if (should_delete) delete callback;
+    erased.front().callback->Run(id, TimeoutManager::ERASED);
     return true;
 }
 
@@ -128,27 +123,27 @@ void TimeoutManagerImpl::timer_run(const PTime& now)
             ExpirationIndex::iterator exp_end = by_expiration.upper_bound(now_ticks);
             expired.insert(expired.end(), by_expiration.begin(), exp_end);
             by_expiration.erase(by_expiration.begin(), exp_end);
-        }
-    }
-
-    if (expired.empty()) return;
 
-    // Reinsert if repeating, do this before executing callbacks
-    // so the callbacks have a chance to call erase
-    EventVec repeated;
-    for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
-        if (it->repeat_interval >= 0) {
-            repeated.push_back(Event(it->id, calc_expiration(it->repeat_interval),
-                        it->repeat_interval, it->callback));
+            // Reinsert if repeating, do this before executing callbacks
+            // so the callbacks have a chance to call erase
+            for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
+                if (it->repeat_interval >= 0) {
+                    Event repeated(*it);
+                    repeated.expiration = calc_expiration(it->repeat_interval);
+                    _timeouts.insert(repeated);
+                }
+            }
         }
     }
-    if (!repeated.empty()) {
-        ScopedLocker<MutexLock> _(_timeouts_lock);
-        _timeouts.insert(repeated.begin(), repeated.end());
-    }
 
     // Execute callbacks
     for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
+        if (it->repeat_interval >= 0) {
+            // may have been erased or cleared, maybe by a previous callback
+            ScopedLocker<MutexLock> _(_timeouts_lock);
+            IdIndex& by_id = _timeouts.get<BY_ID>();
+            if (by_id.find(it->id) == by_id.end()) continue;
+        }
         it->callback->Run(it->id, TimeoutManager::TIMEOUTED);
     }
 }
diff --git a/src/sofa/pbrpc/timeout_manager_impl.h b/src/sofa/pbrpc/timeout_manager_impl.h
index af729dc..95580d4 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.h
+++ b/src/sofa/pbrpc/timeout_manager_impl.h
@@ -68,8 +68,14 @@ private:
         int64 expiration;
         int64 repeat_interval;
         Callback* callback;
+        // Owns "callback" if it is not self delete, so that it stays alive while running
+        // even if the event is erased or cleared in the meantime.
+        sofa::pbrpc::shared_ptr<Callback> holder;
         Event(Id i, int64 e, int64 r, Callback* c)
-            : id(i), expiration(e), repeat_interval(r), callback(c) {}
+            : id(i), expiration(e), repeat_interval(r), callback(c)
+        {
+            if (!c->IsSelfDelete()) holder.reset(c);
+        }
     };
 
     typedef boost::multi_index_container<
-- 
2.43.0


From a9d6fe8253e6ad854447e4d5d803a12960fdf7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 10/21] fix: let Stop() neither deadlock with the maintain
 thread nor miss a connection being accepted

---
 src/sofa/pbrpc/rpc_server_impl.cc | 27 +++++++++++++++++++++------
 src/sofa/pbrpc/rpc_server_impl.h  |  1 +
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 16455fb..ad267cf 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -184,15 +184,20 @@ void RpcServerImpl::Stop()
     _is_running = false;
 
     _timer_worker->stop();
-    _listener->close();
+    {
+        ScopedLocker<MutexLock> _(_listener_lock);
+        _listener->close();
+    }
     StopStreams();
 
-    _timer_worker.reset();
-    _listener.reset();
     ClearStreams();
     _io_service_pool->Stop();
     _maintain_thread_group->stop();
 
+    // no thread uses them any more
+    _timer_worker.reset();
+    _listener.reset();
+
     _io_service_pool.reset();
     _maintain_thread_group.reset();
     _flow_controller.reset();
@@ -335,12 +340,14 @@ void RpcServerImpl::GetPendingStat(int64* pending_message_count,
 bool RpcServerImpl::IsListening()
 {
     ScopedLocker<MutexLock> _(_start_stop_lock);
+    ScopedLocker<MutexLock> __(_listener_lock);
     return _is_running && !_listener->is_closed();
 }
 
 bool RpcServerImpl::RestartListen()
 {
-    ScopedLocker<MutexLock> _(_start_stop_lock);
+    // must not take _start_stop_lock: called by the maintain thread, which Stop() waits for
+    ScopedLocker<MutexLock> _(_listener_lock);
     if (!_is_running)
     {
 #if defined( LOG )
@@ -417,8 +424,16 @@ void RpcServerImpl::OnAccepted(const RpcServerStreamPtr& stream)
     stream->set_max_pending_buffer_size(_max_pending_buffer_size);
     stream->reset_ticks((ptime_now() - _start_time).ticks(), true);
 
-    ScopedLocker<FastLock> _(_stream_set_lock);
-    _stream_set.insert(stream);
+    {
+        ScopedLocker<FastLock> _(_stream_set_lock);
+        if (_is_running)
+        {
+            _stream_set.insert(stream);
+            return;
+        }
+    }
+    // Stop() has already closed the streams in the set
+    stream->close("server not running");
 }
 
 void RpcServerImpl::OnAcceptFailed(RpcErrorCode error_code, const std::string& error_text)
diff --git a/src/sofa/pbrpc/rpc_server_impl.h b/src/sofa/pbrpc/rpc_server_impl.h
index 006d76b..bd24c5e 100644
--- a/src/sofa/pbrpc/rpc_server_impl.h
+++ b/src/sofa/pbrpc/rpc_server_impl.h
@@ -123,6 +123,7 @@ private:
     std::string _server_address;
     RpcEndpoint _listen_endpoint;
     RpcListenerPtr _listener;
+    MutexLock _listener_lock;
 
     TimerWorkerPtr _timer_worker;
 
-- 
2.43.0


From bc6204f4435a6358d0b86474ab9b639ca9eaead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:23 +0000
Subject: [PATCH 11/21] fix: keep the io services alive while streams still use
 them after Stop()

---
 src/sofa/pbrpc/io_service_pool.cc |  1 -
 src/sofa/pbrpc/rpc_byte_stream.h  | 11 +++++++++++
 src/sofa/pbrpc/rpc_listener.h     |  1 +
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/io_service_pool.cc b/src/sofa/pbrpc/io_service_pool.cc
index 1b1aaaa..d30f11b 100644
--- a/src/sofa/pbrpc/io_service_pool.cc
+++ b/src/sofa/pbrpc/io_service_pool.cc
@@ -49,7 +49,6 @@ void IOServicePool::Stop()
     for (size_t i = 0; i < pool_size; ++i)
     {
         _pool[i]->stop();
-        _pool[i].reset();
     }
 }
 
diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index 4c2bc78..19cff70 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -33,6 +33,8 @@ namespace pbrpc {
 using boost::asio::ip::tcp;
 using namespace boost::asio;
 
+class IOServicePool;
+
 class RpcByteStream : public sofa::pbrpc::enable_shared_from_this<RpcByteStream>
 {
 public:
@@ -53,6 +55,13 @@ public:
         memset(_error_message, 0, sizeof(_error_message));
     }
 
+    // Keep the pool that owns the io service alive as long as the stream, which may be
+    // used and released by other threads after the pool has been stopped.
+    void set_io_service_pool(const sofa::pbrpc::shared_ptr<IOServicePool>& io_service_pool)
+    {
+        _io_service_pool = io_service_pool;
+    }
+
     bool no_delay()
     {
         return _no_delay;
@@ -439,6 +448,8 @@ protected:
     size_t _write_buffer_base_block_factor;
 
 private:
+    // should be destroyed after the timer and the socket
+    sofa::pbrpc::shared_ptr<IOServicePool> _io_service_pool;
     deadline_timer _timer;
     tcp::socket _socket;
     int64 _connect_timeout;
diff --git a/src/sofa/pbrpc/rpc_listener.h b/src/sofa/pbrpc/rpc_listener.h
index 5f7557c..0ed0af7 100644
--- a/src/sofa/pbrpc/rpc_listener.h
+++ b/src/sofa/pbrpc/rpc_listener.h
@@ -176,6 +176,7 @@ private:
     void async_accept()
     {
         RpcServerStreamPtr stream(new RpcServerStream(_io_service_pool->GetIOService()));
+        stream->set_io_service_pool(_io_service_pool);
 
         if (_create_callback)
             _create_callback(stream);
-- 
2.43.0


From 4c48c94e69b75bb031282098d31cd96786debc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 12/21] fix: fail Start() when the maintain thread cannot be
 created

---
 src/sofa/pbrpc/rpc_server_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index ad267cf..8df4104 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -96,6 +96,7 @@ bool RpcServerImpl::Start(const std::string& server_address)
 #endif
         _maintain_thread_group.reset();
         _flow_controller.reset();
+        return false;
     }
 
     _io_service_pool.reset(new IOServicePool(
-- 
2.43.0


From 7aebc7c20e9ffaf8ae1d03e22519bc8012e73367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 13/21] fix: an HTTP error body is a JSON string whatever the
 reason says (backslashes and control characters were sent raw)

---
 src/sofa/pbrpc/http_rpc_request.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/http_rpc_request.cc b/src/sofa/pbrpc/http_rpc_request.cc
index 6286734..359e531 100644
--- a/src/sofa/pbrpc/http_rpc_request.cc
+++ b/src/sofa/pbrpc/http_rpc_request.cc
@@ -188,7 +188,7 @@ ReadBufferPtr HTTPRpcRequest::AssembleFailedResponse(
 {
     std::ostringstream oss;
     oss << "\"ERROR: " << error_code << ": "
-        << StringUtils::replace_all(reason, "\"", "\\\"") << "\"";
+        << StringUtils::json_escape_string(reason) << "\"";
 
     WriteBuffer write_buffer;
     if (!RenderResponse(&write_buffer, JSON, oss.str()))
-- 
2.43.0


From 532b4f2992a79e1aec45b65a331c4c4e3a4474d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 14/21] fix: tell a web servlet the HTTP method of the request
 (it always said GET)

---
 src/sofa/pbrpc/web_service.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sofa/pbrpc/web_service.cc b/src/sofa/pbrpc/web_service.cc
index dc6e02f..8190672 100644
--- a/src/sofa/pbrpc/web_service.cc
+++ b/src/sofa/pbrpc/web_service.cc
@@ -212,6 +212,8 @@ bool WebService::RoutePage(
         static_cast<const HTTPRpcRequest*>(rpc_request.get());
 
     HTTPRequest request;
+    request.type = http_rpc_request->_type == HTTPRpcRequest::GET ?
+        HTTPRequest::GET : HTTPRequest::POST;
     request.path = http_rpc_request->_path;
     request.body = http_rpc_request->_req_body;
     request.headers = &http_rpc_request->_headers;
-- 
2.43.0


From 87be65b2c1bfd503fd977c5d0441a538f50f04de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 15/21] fix: do not lose a flow control trigger that comes
 while the token is being given back

A connection that failed to get quota stored the failure, and released its token
afterwards; a trigger in between found the token taken and did nothing, and
cleared the mark that makes later slices trigger again: the connection stalled
for ever.
---
 src/sofa/pbrpc/rpc_message_stream.h        | 14 ++++++++++++--
 src/sofa/pbrpc/rpc_server_message_stream.h | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_message_stream.h b/src/sofa/pbrpc/rpc_message_stream.h
index 979e7f3..a99e177 100644
--- a/src/sofa/pbrpc/rpc_message_stream.h
+++ b/src/sofa/pbrpc/rpc_message_stream.h
@@ -469,7 +469,7 @@ private:
         }
 
         bool started = false;
-        if (is_connected() 
+        while (is_connected() 
                 && atomic_comp_swap(&_receive_token, TOKEN_LOCK, TOKEN_FREE) == TOKEN_FREE)
         {
             SCHECK(_receiving_data != NULL);
@@ -478,12 +478,18 @@ private:
             {
                 // no network quota
                 atomic_comp_swap(&_receive_token, TOKEN_FREE, TOKEN_LOCK);
+
+                // if trigger_receive() was called before the token is released, it had no
+                // effect, so need to try again
+                if (_read_quota_token <= 0)
+                    break;
             }
             else
             {
                 // now start receive
                 async_read_some(_receiving_data, _receiving_size);
                 started = true;
+                break;
             }
         }
         return started;
@@ -532,7 +538,11 @@ private:
                     clear_sending_env();
 
                     atomic_comp_swap(&_send_token, TOKEN_FREE, TOKEN_LOCK);
-                    break;
+
+                    // if trigger_send() was called before the token is released, it had no
+                    // effect, so need to try again
+                    if (_write_quota_token <= 0)
+                        break;
                 }
                 else
                 {
diff --git a/src/sofa/pbrpc/rpc_server_message_stream.h b/src/sofa/pbrpc/rpc_server_message_stream.h
index 844e280..e2289c3 100644
--- a/src/sofa/pbrpc/rpc_server_message_stream.h
+++ b/src/sofa/pbrpc/rpc_server_message_stream.h
@@ -467,7 +467,7 @@ private:
         }
 
         bool started = false;
-        if (is_connected() 
+        while (is_connected() 
                 && atomic_comp_swap(&_receive_token, TOKEN_LOCK, TOKEN_FREE) == TOKEN_FREE)
         {
             SCHECK(_receiving_data != NULL);
@@ -476,12 +476,18 @@ private:
             {
                 // no network quota
                 atomic_comp_swap(&_receive_token, TOKEN_FREE, TOKEN_LOCK);
+
+                // if trigger_receive() was called before the token is released, it had no
+                // effect, so need to try again
+                if (_read_quota_token <= 0)
+                    break;
             }
             else
             {
                 // now start receive
                 async_read_some(_receiving_data, _receiving_size);
                 started = true;
+                break;
             }
         }
         return started;
@@ -530,7 +536,11 @@ private:
                     clear_sending_env();
 
                     atomic_comp_swap(&_send_token, TOKEN_FREE, TOKEN_LOCK);
-                    break;
+
+                    // if trigger_send() was called before the token is released, it had no
+                    // effect, so need to try again
+                    if (_write_quota_token <= 0)
+                        break;
                 }
                 else
                 {
-- 
2.43.0


From 587137944e550c6b04c94780550f2f1c81727642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 16/21] fix: RpcClient::ResetOptions() applies the new
 throughput limits

The flow controller was never told: a new limit had no effect, and a removed one
was no longer recharged, so every connection stopped for ever.
---
 src/sofa/pbrpc/rpc_client_impl.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index ae08b10..b7b1da1 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -161,6 +161,16 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
         }
     }
 
+    if (_flow_controller && _slice_quota_in != old_slice_quota_in)
+    {
+        _flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
+    }
+
+    if (_flow_controller && _slice_quota_out != old_slice_quota_out)
+    {
+        _flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
+    }
+
 #if defined( LOG )
     LOG(INFO) << "ResetOptions(): quota_in="
               << (_slice_quota_in == -1 ? -1 : _slice_quota_in * _slice_count / (1024L * 1024L))
@@ -182,7 +192,7 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
 #else
     SLOG(INFO, "ResetOptions(): quota_in=%lldMB/s(old %lldMB/s)"
             ", quota_out=%lldMB/s(old %lldMB/s)"
-            ", max_pending_buffer_size=%lldMB(old %lldMB)",
+            ", max_pending_buffer_size=%lldMB(old %lldMB)"
             ", keep_alive_time=%lldseconds(old %lldseconds)",
             _slice_quota_in == -1 ? -1 : _slice_quota_in * _slice_count / (1024L * 1024L),
             old_slice_quota_in == -1 ? -1 : old_slice_quota_in * _slice_count / (1024L * 1024L),
-- 
2.43.0


From e41cceb0b99634633cce19f8b9f1e6f35918cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 17/21] fix: RpcServer::ResetOptions() of a server that is not
 started must not use the missing flow controller

---
 src/sofa/pbrpc/rpc_server_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 8df4104..1fd7197 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -252,12 +252,12 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
         }
     }
 
-    if (_slice_quota_in != old_slice_quota_in)
+    if (_flow_controller && _slice_quota_in != old_slice_quota_in)
     {
         _flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
     }
 
-    if (_slice_quota_out != old_slice_quota_out)
+    if (_flow_controller && _slice_quota_out != old_slice_quota_out)
     {
         _flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
     }
-- 
2.43.0


From 48bd2db9cf34a8504b284ed6bfa98147433bf67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 18/21] fix: connections waiting for quota go on when the
 throughput limit is removed

The maintenance timer triggered waiting connections only while a limit was set.
---
 src/sofa/pbrpc/rpc_client_impl.cc | 16 +++++++++++-----
 src/sofa/pbrpc/rpc_client_impl.h  |  2 ++
 src/sofa/pbrpc/rpc_server_impl.cc | 16 +++++++++++-----
 src/sofa/pbrpc/rpc_server_impl.h  |  2 ++
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index b7b1da1..41b03e7 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -27,6 +27,8 @@ RpcClientImpl::RpcClientImpl(const RpcClientOptions& options)
         -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+    _flow_limited_in = _slice_quota_in != -1;
+    _flow_limited_out = _slice_quota_out != -1;
     _max_pending_buffer_size =
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -147,6 +149,8 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
         -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+    _flow_limited_in = _flow_limited_in || _slice_quota_in != -1;
+    _flow_limited_out = _flow_limited_out || _slice_quota_out != -1;
     _max_pending_buffer_size =
         std::max(0L, options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -481,7 +485,7 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
     int64 now_ticks = (now - _epoch_time).ticks();
 
     // checks which need iterator streams
-    if (_keep_alive_ticks != -1 || _slice_quota_in != -1 || _slice_quota_out != -1)
+    if (_keep_alive_ticks != -1 || _flow_limited_in || _flow_limited_out)
     {
         StreamMap streams;
         {
@@ -514,10 +518,11 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
         }
 
         // flow control in
-        if (_slice_quota_in != -1)
+        if (_flow_limited_in)
         {
             // recharge quota pool
-            _flow_controller->recharge_read_quota(_slice_quota_in);
+            if (_slice_quota_in != -1)
+                _flow_controller->recharge_read_quota(_slice_quota_in);
 
             // collect streams need to trigger
             std::vector<FlowControlItem> trigger_list;
@@ -549,10 +554,11 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
         }
 
         // flow control out
-        if (_slice_quota_out != -1)
+        if (_flow_limited_out)
         {
             // recharge quota pool
-            _flow_controller->recharge_write_quota(_slice_quota_out);
+            if (_slice_quota_out != -1)
+                _flow_controller->recharge_write_quota(_slice_quota_out);
 
             // collect streams need to trigger
             std::vector<FlowControlItem> trigger_list;
diff --git a/src/sofa/pbrpc/rpc_client_impl.h b/src/sofa/pbrpc/rpc_client_impl.h
index b3307d5..3ed2f53 100644
--- a/src/sofa/pbrpc/rpc_client_impl.h
+++ b/src/sofa/pbrpc/rpc_client_impl.h
@@ -102,6 +102,8 @@ private:
     int64 _slice_count;
     int64 _slice_quota_in;
     int64 _slice_quota_out;
+    bool _flow_limited_in; // if ever limited, then some streams may be waiting for quota
+    bool _flow_limited_out;
     int64 _max_pending_buffer_size;
     int64 _keep_alive_ticks;
 
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 1fd7197..8c0d6e4 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -40,6 +40,8 @@ RpcServerImpl::RpcServerImpl(const RpcServerOptions& options,
         -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+    _flow_limited_in = _slice_quota_in != -1;
+    _flow_limited_out = _slice_quota_out != -1;
     _max_pending_buffer_size =
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -238,6 +240,8 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
         -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+    _flow_limited_in = _flow_limited_in || _slice_quota_in != -1;
+    _flow_limited_out = _flow_limited_out || _slice_quota_out != -1;
     _max_pending_buffer_size = 
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -506,7 +510,7 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
     }
 
     // checks which need iterator streams
-    if (_keep_alive_ticks != -1 || _slice_quota_in != -1 || _slice_quota_out != -1)
+    if (_keep_alive_ticks != -1 || _flow_limited_in || _flow_limited_out)
     {
         StreamSet streams;
         {
@@ -539,10 +543,11 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
         }
 
         // flow control in
-        if (_slice_quota_in != -1)
+        if (_flow_limited_in)
         {
             // recharge quota pool
-            _flow_controller->recharge_read_quota(_slice_quota_in);
+            if (_slice_quota_in != -1)
+                _flow_controller->recharge_read_quota(_slice_quota_in);
 
             // collect streams need to trigger
             std::vector<FlowControlItem> trigger_list;
@@ -574,10 +579,11 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
         }
 
         // flow control out
-        if (_slice_quota_out != -1)
+        if (_flow_limited_out)
         {
             // recharge quota pool
-            _flow_controller->recharge_write_quota(_slice_quota_out);
+            if (_slice_quota_out != -1)
+                _flow_controller->recharge_write_quota(_slice_quota_out);
 
             // collect streams need to trigger
             std::vector<FlowControlItem> trigger_list;
diff --git a/src/sofa/pbrpc/rpc_server_impl.h b/src/sofa/pbrpc/rpc_server_impl.h
index bd24c5e..7549f8e 100644
--- a/src/sofa/pbrpc/rpc_server_impl.h
+++ b/src/sofa/pbrpc/rpc_server_impl.h
@@ -109,6 +109,8 @@ private:
     int64 _slice_count;
     int64 _slice_quota_in;
     int64 _slice_quota_out;
+    bool _flow_limited_in; // if ever limited, then some streams may be waiting for quota
+    bool _flow_limited_out;
     int64 _max_pending_buffer_size;
     int64 _keep_alive_ticks;
     int64 _restart_listen_interval_ticks;
-- 
2.43.0


From 6be2700334effedfe8c9bf73e68927369d210224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 19/21] fix: throughput limits over 20GB/s must not overflow
 the quota of a slice

The quota became negative and every connection stopped.
---
 src/sofa/pbrpc/flow_controller.h | 36 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/sofa/pbrpc/flow_controller.h b/src/sofa/pbrpc/flow_controller.h
index 9d38446..ac91b3b 100644
--- a/src/sofa/pbrpc/flow_controller.h
+++ b/src/sofa/pbrpc/flow_controller.h
@@ -5,6 +5,9 @@
 #ifndef _SOFA_PBRPC_FLOW_CONTROLLER_H_
 #define _SOFA_PBRPC_FLOW_CONTROLLER_H_
 
+#include <algorithm>
+#include <limits>
+
 #include <sofa/pbrpc/common_internal.h>
 
 namespace sofa {
@@ -13,26 +16,27 @@ namespace pbrpc {
 class FlowController
 {
 public:
-    FlowController(bool read_no_limit, int read_quota,
-                   bool write_no_limit, int write_quota)
-        : _read_no_limit(read_no_limit), _read_quota(read_quota)
-        , _write_no_limit(write_no_limit), _write_quota(write_quota) {}
+    FlowController(bool read_no_limit, int64 read_quota,
+                   bool write_no_limit, int64 write_quota)
+        : _read_no_limit(read_no_limit), _read_quota(to_quota(read_quota))
+        , _write_no_limit(write_no_limit), _write_quota(to_quota(write_quota)) {}
 
     ~FlowController() {}
 
     // Reset read quota.
     // @param read_no_limit  if set as no limit.
     // @param quota  the new quota, only useful when read_no_limit is false.
-    void reset_read_quota(bool read_no_limit, int quota)
+    void reset_read_quota(bool read_no_limit, int64 quota)
     {
         _read_no_limit = read_no_limit;
-        _read_quota = quota;
+        _read_quota = to_quota(quota);
     }
 
     // Recharge read quota.
-    // @param quota  the quota to recharge.
-    void recharge_read_quota(int quota)
+    // @param slice_quota  the quota to recharge.
+    void recharge_read_quota(int64 slice_quota)
     {
+        int quota = to_quota(slice_quota);
         if (_read_no_limit)
             return;
         int old_quota = _read_quota;
@@ -47,16 +51,17 @@ public:
     // Reset write quota.
     // @param write_no_limit  if set as no limit.
     // @param quota  the new quota, only useful when write_no_limit is false.
-    void reset_write_quota(bool write_no_limit, int quota)
+    void reset_write_quota(bool write_no_limit, int64 quota)
     {
         _write_no_limit = write_no_limit;
-        _write_quota = quota;
+        _write_quota = to_quota(quota);
     }
 
     // Recharge write quota.
-    // @param quota  the quota to recharge.
-    void recharge_write_quota(int quota)
+    // @param slice_quota  the quota to recharge.
+    void recharge_write_quota(int64 slice_quota)
     {
+        int quota = to_quota(slice_quota);
         if (_write_no_limit)
             return;
         int old_quota = _write_quota;
@@ -118,6 +123,13 @@ public:
         return old_quota;
     }
 
+private:
+    // The quota of a slice may be out of range of int (if the limit is more than 20GB/s).
+    static int to_quota(int64 quota)
+    {
+        return static_cast<int>(std::min<int64>(quota, std::numeric_limits<int>::max()));
+    }
+
 private:
     bool _read_no_limit;
     volatile int _read_quota;
-- 
2.43.0


From 3a2711ad4a8cf52311283559b092a2702fba0ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 20/21] fix: GzipInputStream wrote into its freed buffer when
 destroyed early, backed the input up twice between members, and took a
 truncated stream for a whole one

---
 src/sofa/pbrpc/gzip_stream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/gzip_stream.cc b/src/sofa/pbrpc/gzip_stream.cc
index ebc5189..12f24aa 100644
--- a/src/sofa/pbrpc/gzip_stream.cc
+++ b/src/sofa/pbrpc/gzip_stream.cc
@@ -81,13 +81,13 @@ GzipInputStream::GzipInputStream(
 }
 
 GzipInputStream::~GzipInputStream() {
-  operator delete(output_buffer_);
   // Back up input stream if there are unused bytes
   if (ExpectAtEnd() && zcontext_.avail_in > 0) {
     sub_stream_->BackUp(zcontext_.avail_in);
     zcontext_.avail_in = 0;
   }
   zerror_ = inflateEnd(&zcontext_);
+  operator delete(output_buffer_);
 }
 
 static inline int internalInflateInit2(
@@ -112,7 +112,8 @@ int GzipInputStream::Inflate(int flush) {
     if (!ok) {
       zcontext_.next_out = NULL;
       zcontext_.avail_out = 0;
-      return Z_STREAM_END;
+      // The input must not end inside of a compressed stream.
+      return zcontext_.total_in > 0 ? Z_DATA_ERROR : Z_STREAM_END;
     }
     zcontext_.next_in = static_cast<Bytef*>(const_cast<void*>(in));
 
@@ -152,6 +153,7 @@ bool GzipInputStream::Next(const void** data, int* size) {
     // First backup stream
     if (zcontext_.avail_in) {
       sub_stream_->BackUp(zcontext_.avail_in);
+      zcontext_.avail_in = 0;
     }
     if (zcontext_.next_out != NULL) {
       // sub_stream_ may have concatenated streams to follow
-- 
2.43.0


From 14439f9be6f0f919860665c3f8e6a7e6a7bed5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 21/21] fix: a malformed snappy or LZ4 body must fail its call,
 not abort or crash the process

The block streams aborted on malformed snappy blocks, returned negative sizes
for malformed LZ4 blocks, on Skip() and when a whole block was backed up
before Flush(). A body that can not be uncompressed is now reported as a
parse error of its own call.
---
 src/sofa/pbrpc/binary_rpc_request.cc |  2 +-
 src/sofa/pbrpc/block_wrappers.cc     | 61 +++++++++++++++++++++-------
 src/sofa/pbrpc/block_wrappers.h      | 11 +++--
 src/sofa/pbrpc/rpc_client_impl.cc    |  2 +-
 4 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/src/sofa/pbrpc/binary_rpc_request.cc b/src/sofa/pbrpc/binary_rpc_request.cc
index de571d5..e035f35 100644
--- a/src/sofa/pbrpc/binary_rpc_request.cc
+++ b/src/sofa/pbrpc/binary_rpc_request.cc
@@ -87,7 +87,7 @@ void BinaryRpcRequest::ProcessRequest(
     {
         sofa::pbrpc::scoped_ptr<AbstractCompressedInputStream> is(
                 get_compressed_input_stream(_req_body.get(), compress_type));
-        parse_request_return = request->ParseFromZeroCopyStream(is.get());
+        parse_request_return = request->ParseFromZeroCopyStream(is.get()) && is->ExpectAtEnd();
     }
     if (!parse_request_return)
     {
diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index 465a78b..4b5a8b7 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -27,7 +27,7 @@ const size_t BLOCKSIZE = 64 * 1024;
 BlockCompressionInputStream::BlockCompressionInputStream(
     ZeroCopyInputStream* sub_stream)
     : _output_buffer(NULL), _output_buffer_size(0), _output_buffer_capacity(0),
-      _sub_stream(NULL), _backed_up_bytes(0), _byte_count(0) {
+      _sub_stream(NULL), _backed_up_bytes(0), _byte_count(0), _failed(false) {
     _raw_stream = sub_stream;
     _sub_stream = new CodedInputStream(_raw_stream);
     _sub_stream->SetTotalBytesLimit(1 << 30, 1 << 30);
@@ -38,9 +38,17 @@ BlockCompressionInputStream::~BlockCompressionInputStream() {
     delete[] _output_buffer;
 }
 
-bool BlockCompressionInputStream::Skip(int /*count*/) {
-    SCHECK(false);
-    return false;
+bool BlockCompressionInputStream::Skip(int count) {
+    const void* data;
+    int size;
+    while (count > 0 && Next(&data, &size)) {
+        if (size > count) {
+            BackUp(size - count);
+            size = count;
+        }
+        count -= size;
+    }
+    return count == 0;
 };
 
 void BlockCompressionInputStream::BackUp(int count) {
@@ -67,19 +75,30 @@ bool BlockCompressionInputStream::Next(const void** data, int* size) {
         return true;
     }
     
+    const void* input;
+    int input_size;
+    if (_failed || !_sub_stream->GetDirectBufferPointer(&input, &input_size)) {
+        return false;
+    }
+
     uint32_t compressed_size = 0;
     if (!_sub_stream->ReadVarint32(&compressed_size) || compressed_size > 2*BLOCKSIZE) {
+        _failed = true;
         return false;
     }
 
     char * tempbuffer = new char[compressed_size];
     if (!_sub_stream->ReadRaw(tempbuffer, compressed_size)) {
         delete[] tempbuffer;
+        _failed = true;
         return false;
     }
 
-    RawUncompress(tempbuffer, compressed_size);
+    _failed = !RawUncompress(tempbuffer, compressed_size);
     delete[] tempbuffer;
+    if (_failed) {
+        return false;
+    }
 
     // TODO: probably call this only every Limit/BLOCKSIZE
     if (_sub_stream->BytesUntilLimit() < 1024*1024) reset_input_stream();
@@ -121,8 +140,15 @@ void BlockCompressionOutputStream::BackUp(int count) {
 bool BlockCompressionOutputStream::Flush()
 {
     size_t size = BLOCKSIZE - _backed_up_bytes;
-    if (!_input_buffer || size == 0) return true;
-    
+    if (!_input_buffer) return true;
+    if (size == 0) {
+        // The whole block has been backed up.
+        _backed_up_bytes = 0;
+        delete[] _input_buffer;
+        _input_buffer = 0;
+        return true;
+    }
+
     size_t compressed_size = 0;
     char * compressed_data = new char[MaxCompressedLength(size)];
     compressed_size = RawCompress(_input_buffer, size, compressed_data);
@@ -162,21 +188,23 @@ bool BlockCompressionOutputStream::Next(void** data, int* size) {
 
 /// Snappy implementation
 
-void SnappyInputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
+bool SnappyInputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
     size_t uncompressed_size;
     bool success = ::snappy::GetUncompressedLength(
         input_buffer, compressed_size, &uncompressed_size);
-    SCHECK(success);
-    
+    // an element of a snappy stream yields at most 64 bytes
+    if (!success || uncompressed_size / 64 > compressed_size) {
+        return false;
+    }
+
     if (uncompressed_size > _output_buffer_capacity) {
         delete[] _output_buffer;
         _output_buffer = new char[uncompressed_size];
         _output_buffer_capacity = uncompressed_size;
     }
     _output_buffer_size = uncompressed_size;
-    success = ::snappy::RawUncompress(input_buffer, compressed_size,
+    return ::snappy::RawUncompress(input_buffer, compressed_size,
         _output_buffer);
-    SCHECK(success);    
 }
 
 
@@ -199,13 +227,18 @@ uint32_t SnappyOutputStream::RawCompress(char* input_buffer, size_t input_size,
 
 /// LZ4 implementation
 
-void LZ4InputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
+bool LZ4InputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
     if (!_output_buffer) {
         _output_buffer = new char[BLOCKSIZE];
         _output_buffer_capacity = BLOCKSIZE;
     }
-    _output_buffer_size = LZ4_uncompress_unknownOutputSize(input_buffer,
+    int uncompressed_size = LZ4_uncompress_unknownOutputSize(input_buffer,
         _output_buffer, compressed_size, BLOCKSIZE);
+    if (uncompressed_size < 0) {
+        return false;
+    }
+    _output_buffer_size = uncompressed_size;
+    return true;
 }
 
 uint32_t LZ4OutputStream::MaxCompressedLength(size_t input_size)
diff --git a/src/sofa/pbrpc/block_wrappers.h b/src/sofa/pbrpc/block_wrappers.h
index 34637f5..72703c9 100644
--- a/src/sofa/pbrpc/block_wrappers.h
+++ b/src/sofa/pbrpc/block_wrappers.h
@@ -33,10 +33,12 @@ class BlockCompressionInputStream : public AbstractCompressedInputStream {
   void BackUp(int count);
   bool Skip(int count);
   int64_t ByteCount() const { return _byte_count; }
-  bool ExpectAtEnd() { return true; }
+  // Returns false if the stream can not be uncompressed.
+  bool ExpectAtEnd() { return !_failed; }
 
  protected:
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size) = 0;
+  // Uncompress into the output buffer, returns false if the input is malformed.
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size) = 0;
   
   char* _output_buffer;
   size_t _output_buffer_size;
@@ -49,6 +51,7 @@ class BlockCompressionInputStream : public AbstractCompressedInputStream {
 
   int _backed_up_bytes;
   size_t _byte_count;
+  bool _failed;
 
   void reset_input_stream();
   
@@ -88,7 +91,7 @@ class SnappyInputStream : public BlockCompressionInputStream {
  public:
   explicit SnappyInputStream(ZeroCopyInputStream* sub_stream) : BlockCompressionInputStream(sub_stream) {};
 
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size);
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size);
   
   GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(SnappyInputStream);
 };
@@ -110,7 +113,7 @@ class LZ4InputStream : public BlockCompressionInputStream {
 
   explicit LZ4InputStream(ZeroCopyInputStream* sub_stream) : BlockCompressionInputStream(sub_stream) {};
   
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size);
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size);
   
   GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(LZ4InputStream);
 };
diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 41b03e7..8620fd2 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -462,7 +462,7 @@ void RpcClientImpl::DoneCallback(google::protobuf::Message* response,
         {
             ::sofa::pbrpc::scoped_ptr<AbstractCompressedInputStream> is(
                     get_compressed_input_stream(buffer.get(), compress_type));
-            parse_response_return = response->ParseFromZeroCopyStream(is.get());
+            parse_response_return = response->ParseFromZeroCopyStream(is.get()) && is->ExpectAtEnd();
         }
         if (!parse_response_return)
         {
-- 
2.43.0

