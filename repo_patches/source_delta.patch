From 83f3da83ca6d8bc42ddd95c713d24c3f064239e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:28 +0000
Subject: [PATCH 01/18] fix: do not build SSL exception text from a null reason
 string

The OpenSSL lookup of a reason string returns NULL for codes it does not
know, such as the "want read" and "want write" codes used internally.
Constructing std::string from NULL inside a throw() constructor aborted
the process on every non-blocking TLS handshake.
---
 libiqxmlrpc/ssl_lib.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 2348a38..bcd9d72 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -260,9 +260,20 @@ Ctx::prepare_verify(SSL* ssl, bool server)
 }
 
 // ----------------------------------------------------------------------------
+namespace {
+
+const char*
+reason_string(unsigned long err)
+{
+  const char* s = ERR_reason_error_string(err);
+  return s ? s : "unknown error";
+}
+
+} // anonymous namespace
+
 exception::exception() throw():
   ssl_err( ERR_get_error() ),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( reason_string(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
@@ -270,7 +281,7 @@ exception::exception() throw():
 
 exception::exception( unsigned long err ) throw():
   ssl_err(err),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( reason_string(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
-- 
2.43.0


From 47ff57db345821cbf59b1e640f471d27160c589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:28 +0000
Subject: [PATCH 02/18] fix: read once per input event in client connections

The client sockets are non-blocking. When a read filled the buffer exactly
and nothing more had arrived yet, the next read failed with EAGAIN and the
whole call was reported as a network error.
---
 libiqxmlrpc/http_client.cc  | 11 +++++------
 libiqxmlrpc/https_client.cc | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/libiqxmlrpc/http_client.cc b/libiqxmlrpc/http_client.cc
index e7122ef..33ffdd2 100644
--- a/libiqxmlrpc/http_client.cc
+++ b/libiqxmlrpc/http_client.cc
@@ -54,13 +54,12 @@ void Http_client_connection::handle_output( bool& )
 
 void Http_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
 
-    resp_packet = read_response( std::string(read_buf(), sz) );
-  }
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
+
+  resp_packet = read_response( std::string(read_buf(), sz) );
 
   if( resp_packet )
     reactor->unregister_handler( this );
diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index e7e860e..1fb8393 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -96,13 +96,12 @@ void Https_proxy_client_connection::handle_output( bool& )
 
 void Https_proxy_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
 
-    resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
-  }
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
+
+  resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
 
   if( resp_packet )
   {
-- 
2.43.0


From 6a04c1503aa22fd00d0e2c23ff7fee8d46c74408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:28 +0000
Subject: [PATCH 03/18] fix: drop the cached keep-alive connection after a
 failed call

After a timeout or a network error the connection stayed cached. The next
call then reused a dead connection or read the late answer to the previous
request as its own.
---
 libiqxmlrpc/client.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index a2ffe2b..324ddc5 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -134,10 +134,18 @@ Response Client_base::execute(
 {
   Request req( method, pl );
 
-  Auto_conn conn( *impl_.get(), *this );
-  conn->set_options(impl_->opts);
+  try {
+    Auto_conn conn( *impl_.get(), *this );
+    conn->set_options(impl_->opts);
 
-  return conn->process_session( req, xheaders );
+    return conn->process_session( req, xheaders );
+  }
+  catch( ... )
+  {
+    // The state of the connection is unknown, do not reuse it.
+    impl_->conn_cache.reset();
+    throw;
+  }
 }
 
 } // namespace iqxmlrpc
-- 
2.43.0


From 636d730067904423894d390444831585ceafb8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:28 +0000
Subject: [PATCH 04/18] fix: do not keep an empty socket address after a failed
 host lookup

The address was marked as resolved before the lookup. After a failed lookup
the next use silently got an all-zero address instead of an error.
---
 libiqxmlrpc/inet_addr.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index 21d52bc..bdc0070 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -92,12 +92,13 @@ Inet_addr::Impl::Impl( const SystemSockAddrIn& s ):
 void
 Inet_addr::Impl::init_sockaddr() const
 {
-  sa = SystemSockAddrIn();
+  SystemSockAddrIn addr = SystemSockAddrIn();
   struct hostent* hent = 0;
   IQXMLRPC_GETHOSTBYNAME(host.c_str());
-  sa->sin_family = PF_INET;
-  sa->sin_port = htons(port);
-  memcpy( (char*)&(sa->sin_addr), (char*)hent->h_addr, hent->h_length );
+  addr.sin_family = PF_INET;
+  addr.sin_port = htons(port);
+  memcpy( (char*)&(addr.sin_addr), (char*)hent->h_addr, hent->h_length );
+  sa = addr;
 }
 
 Inet_addr::Inet_addr( const std::string& host, int port ):
-- 
2.43.0


From 046ed97fbcbe9ecf92cd70922eefe0ffda6df6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:28 +0000
Subject: [PATCH 05/18] fix: answer "Expect: 100-continue" on every keep-alive
 request

The flag saying that the interim response was sent survived into the next
request on the same connection, so a client waiting for it stalled.
---
 libiqxmlrpc/http.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 88dc6ad..7ce68f2 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -412,6 +412,7 @@ void Packet_reader::clear()
   header_cache.erase();
   constructed = false;
   total_sz = 0;
+  continue_sent_ = false;
 }
 
 void Packet_reader::check_sz( size_t sz )
-- 
2.43.0


From 1ac00184b426bb14aae6de3927920b748f84e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:28 +0000
Subject: [PATCH 06/18] fix: end the HTTP header at the earliest terminator

A header ended by "\n\n" was not recognised when the body held "\r\n\r\n"
and arrived in the same chunk. The message was then split differently
depending on how it was fragmented by the network.
---
 libiqxmlrpc/http.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 7ce68f2..9aa3527 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -436,9 +436,11 @@ bool Packet_reader::read_header( const std::string& s )
 
   header_cache += s;
   iterator_range<std::string::iterator> i = find_first(header_cache, "\r\n\r\n");
+  iterator_range<std::string::iterator> j = find_first(header_cache, "\n\n");
 
-  if( i.begin() == i.end() )
-    i = boost::find_first(header_cache, "\n\n");
+  // the earliest of two possible terminators ends the header
+  if( j && (!i || j.begin() < i.begin()) )
+    i = j;
 
   if( i.begin() == i.end() )
     return false;
-- 
2.43.0


From caa21af0c1e00200c34f766f33d127b3e7e1b898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:28 +0000
Subject: [PATCH 07/18] fix: pad certificate fingerprint bytes to two hex
 digits

Bytes below 0x10 lost their leading zero, so the fingerprint did not match
the usual notation and different digests could yield the same text.
---
 libiqxmlrpc/ssl_lib.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index bcd9d72..3ea3260 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -20,6 +20,7 @@
 #include <pthread.h>
 #endif
 
+#include <iomanip>
 #include <sstream>
 #include "ssl_lib.h"
 #include "net_except.h"
@@ -171,7 +172,7 @@ ConnectionVerifier::cert_finger_sha256(X509_STORE_CTX* ctx) const
 
   std::ostringstream ss;
   for(int i = 0; i < 32; i++)
-     ss << std::hex << int(md[i]);
+     ss << std::hex << std::setw(2) << std::setfill('0') << int(md[i]);
 
   return ss.str();
 }
-- 
2.43.0


From 2f47203d76a2c095466ffdcac24c911c1a8fe437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:28 +0000
Subject: [PATCH 08/18] fix: require a client certificate also without a custom
 verifier

The "fail if no peer certificate" flag has no effect unless peer verification
is on, so a server asked to require certificates accepted clients without one.
---
 libiqxmlrpc/ssl_lib.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 3ea3260..fc0e414 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -250,7 +250,7 @@ Ctx::prepare_verify(SSL* ssl, bool server)
   int mode = v ? SSL_VERIFY_PEER : SSL_VERIFY_NONE;
 
   if (server && impl_->require_client_cert)
-    mode |= SSL_VERIFY_FAIL_IF_NO_PEER_CERT;
+    mode |= SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT;
 
   if (v) {
     SSL_set_verify(ssl, mode, iqxmlrpc_SSL_verify);
-- 
2.43.0


From 1662a557d6d101f567268df17094948d28738d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:28 +0000
Subject: [PATCH 09/18] fix: close sockets of connections denied by the
 firewall

Every denied connection leaked its descriptor. The zero linger timeout is
dropped because closing with it would abort the connection before the
message is delivered.
---
 libiqxmlrpc/acceptor.cc | 1 +
 libiqxmlrpc/socket.cc   | 2 --
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 535abaa..1ab27ae 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -64,6 +64,7 @@ void Acceptor::accept()
       new_sock.shutdown();
     }
 
+    new_sock.close();
     return;
   }
 
diff --git a/libiqxmlrpc/socket.cc b/libiqxmlrpc/socket.cc
index ea3463f..26eee96 100644
--- a/libiqxmlrpc/socket.cc
+++ b/libiqxmlrpc/socket.cc
@@ -96,8 +96,6 @@ size_t Socket::recv( char* buf, size_t len )
 void Socket::send_shutdown( const char* data, size_t len )
 {
   send(data, len);
-  const struct linger ling = {1, 0};
-  ::setsockopt( sock, SOL_SOCKET, SO_LINGER, reinterpret_cast<const char*>(&ling), sizeof(ling) );
   ::shutdown( sock, 1 );
 }
 
-- 
2.43.0


From 81ea67adb0fbadcaabab86854b98938f441113b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:28 +0000
Subject: [PATCH 10/18] fix: pool executor shutdown could hang

The destructor took its two locks in the order opposite to the pool threads,
which could deadlock. A thread that found the queue empty just after the
shutdown notification waited forever.
---
 libiqxmlrpc/executor.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index 8a218b1..67a352f 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -99,6 +99,9 @@ void Pool_executor_factory::Pool_thread::operator ()()
 
     if (pool->req_queue.empty())
     {
+      if (pool->is_being_destructed())
+        return;
+
       pool->req_queue_cond.wait(lk);
 
       if (pool->is_being_destructed())
@@ -170,8 +173,11 @@ void Pool_executor_factory::register_executor( Pool_executor* executor )
 
 void Pool_executor_factory::destruction_started()
 {
-  scoped_lock lk(destructor_lock);
-  in_destructor = true;
+  {
+    // never hold both locks: threads take them in the opposite order
+    scoped_lock lk(destructor_lock);
+    in_destructor = true;
+  }
 
   scoped_lock lk_(req_queue_lock);
   req_queue_cond.notify_all();
-- 
2.43.0


From 051109cf3d18bf9c5ea70b450fbec79143ca5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:58 +0000
Subject: [PATCH 11/18] fix: check every character of a dateTime.iso8601 text

The last character was not checked at all, and a colon or a "T" was accepted
in place of any digit or separator. The fields that the text does not set
are now zero instead of uninitialised memory.
---
 libiqxmlrpc/value_type.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index b35fb36..50c5c88 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -525,13 +525,19 @@ Date_time::Date_time( bool use_lt )
 
 Date_time::Date_time( const std::string& s )
 {
-  if( s.length() != 17 || s[8] != 'T' )
-    throw Malformed_iso8601();
+  static const char format[] = "dddddddd" "T" "dd:dd:dd";
 
-  char alpha[] = "0123456789T:";
-  if( s.substr(0, 16).find_first_not_of(alpha) != std::string::npos )
+  if( s.length() != 17 )
     throw Malformed_iso8601();
 
+  for( size_t i = 0; i < 17; i++ )
+  {
+    bool digit = s[i] >= '0' && s[i] <= '9';
+    if( format[i] == 'd' ? !digit : s[i] != format[i] )
+      throw Malformed_iso8601();
+  }
+
+  tm_ = tm();
   tm_.tm_year = atoi( s.substr(0, 4).c_str() ) - 1900;
   tm_.tm_mon  = atoi( s.substr(4, 2).c_str() ) - 1;
   tm_.tm_mday = atoi( s.substr(6, 2).c_str() );
-- 
2.43.0


From 7eb3a50456b2fcfda5b72cd92014096aa050bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:24 +0000
Subject: [PATCH 12/18] fix: give the tunnelled HTTPS connection its client
 options

---
 libiqxmlrpc/https_client.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index 1fb8393..cd66523 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -56,6 +56,7 @@ http::Packet* Https_proxy_client_connection::do_process_session( const std::stri
   setup_tunnel();
 
   Https_client_connection https_conn(sock, non_blocking);
+  https_conn.set_options(opts());
   https_conn.post_connect();
 
   return https_conn.do_process_session(s);
-- 
2.43.0


From 06f3479ce3f203d74c70b3f2ae954aa813ba6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:52 +0000
Subject: [PATCH 13/18] fix: keep serving when a rejected peer has already gone
 away

---
 libiqxmlrpc/acceptor.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 1ab27ae..0647fd7 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -57,11 +57,15 @@ void Acceptor::accept()
   {
     std::string msg = firewall->message();
 
-    if (!msg.empty())
-    {
-      new_sock.send_shutdown(msg.c_str(), msg.size());
-    } else {
-      new_sock.shutdown();
+    try {
+      if (!msg.empty())
+      {
+        new_sock.send_shutdown(msg.c_str(), msg.size());
+      } else {
+        new_sock.shutdown();
+      }
+    } catch( const network_error& ) {
+      // the peer has gone already, there is nobody to tell
     }
 
     new_sock.close();
-- 
2.43.0


From 83133727983053973d3f3a6fd9ffea35743c45c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:52 +0000
Subject: [PATCH 14/18] fix: skip handlers withdrawn by another handler in the
 same turn of the event loop

---
 libiqxmlrpc/reactor_impl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index fd2e4de..7ede3b2 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -210,7 +210,10 @@ void Reactor<Lock>::invoke_event_handler( Reactor_base::HandlerState& hs )
   bool terminate = false;
 
   Event_handler* handler = find_handler(hs.fd);
-  assert(handler);
+
+  // could have been withdrawn by a handler invoked before it
+  if( !handler )
+    return;
 
   if( handler->catch_in_reactor() )
     invoke_servers_handler( handler, hs, terminate );
-- 
2.43.0


From ea3fc49b659bcd9013ba76d73ee7da0af681f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:52 +0000
Subject: [PATCH 15/18] fix: look at the registered handlers under the lock of
 the event loop

---
 libiqxmlrpc/reactor_impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index 7ede3b2..31c7d59 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -283,11 +283,15 @@ bool Reactor<Lock>::handle_system_events(Reactor_base::Timeout ms)
 template <class Lock>
 bool Reactor<Lock>::handle_events(Reactor_base::Timeout ms)
 {
-  if (handlers.empty())
-    return false;
+  {
+    scoped_lock lk(lock);
 
-  if (handlers.size() - num_stoppers <= 0)
-    throw No_handlers();
+    if (handlers.empty())
+      return false;
+
+    if (handlers.size() - num_stoppers <= 0)
+      throw No_handlers();
+  }
 
   handle_user_events();
   return handle_system_events(ms);
-- 
2.43.0


From 97d5f8b82dddc99324172abf19c2ee5d00d4cff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:52 +0000
Subject: [PATCH 16/18] fix: read <nil> up to its end tag

The value builder stopped at the start tag of <nil> and left the end tag to
the enclosing builder, whose element depth then went wrong. Parameters after
a second nil were dropped silently, and arrays or structs with a nil in front
of another element were refused.
---
 libiqxmlrpc/value_parser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 49159a6..3a4e561 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -169,10 +169,6 @@ ValueBuilder::do_visit_element(const std::string& tagname)
     retval.reset(sub_build<Value_type*, ArrayBuilder>(true));
     break;
 
-  case NIL:
-    retval.reset(new Nil());
-    break;
-
   default:
     // wait for text within <i4>...</i4>, etc...
     break;
@@ -215,6 +211,10 @@ ValueBuilder::do_visit_element_end(const std::string&)
     retval.reset(Binary_data::from_data(""));
     break;
 
+  case NIL:
+    retval.reset(new Nil());
+    break;
+
   default:
     throw XML_RPC_violation(parser_.context());
   }
-- 
2.43.0


From d489b5d688eba1c89152362ab9a7dcb1287a4dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:52 +0000
Subject: [PATCH 17/18] fix: visit the end of an element with empty text

Reading the text of an empty <name> or <methodName> swallowed the end tag, so
the builder's element depth was off by one. Structs with an empty member name
were refused inside other containers.
---
 libiqxmlrpc/parser2.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index afdd7f1..0e96eb7 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -206,6 +206,9 @@ public:
         std::string err = "text is expected at " + get_context();
         throw XML_RPC_violation(err);
       }
+
+      // empty element, its end is still to be visited
+      pushed_back = curr.element_end;
     }
     return to_string(xmlTextReaderValue(reader));
   }
-- 
2.43.0


From 6d2a422b0d080b308c5d80ee9543303a55476aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:46 +0000
Subject: [PATCH 18/18] fix: keep strings and names that are white space only

The reader reports text of white space only as a node type of its own, which
the parser skipped. Such strings were read as empty and such member names
were refused.
---
 libiqxmlrpc/parser2.cc      | 22 +++++++++++++++++++---
 libiqxmlrpc/parser2.h       |  7 +++++++
 libiqxmlrpc/value_parser.cc |  7 +++++++
 libiqxmlrpc/value_parser.h  |  3 +++
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index 0e96eb7..a3a3ff5 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -79,6 +79,12 @@ BuilderBase::visit_text(const std::string& text)
   do_visit_text(text);
 }
 
+void
+BuilderBase::visit_space(const std::string& text)
+{
+  do_visit_space(text);
+}
+
 void
 BuilderBase::do_visit_element_end(const std::string&)
 {
@@ -93,6 +99,11 @@ BuilderBase::do_visit_text(const std::string&)
   }
 }
 
+void
+BuilderBase::do_visit_space(const std::string&)
+{
+}
+
 //
 // Parser
 //
@@ -123,6 +134,7 @@ public:
     bool element_end;
     bool is_empty;
     bool is_text;
+    bool is_space;
 
     ParseStep():
       done(false),
@@ -135,7 +147,8 @@ public:
       element_begin(type == XML_READER_TYPE_ELEMENT),
       element_end(type == XML_READER_TYPE_END_ELEMENT),
       is_empty(element_begin && xmlTextReaderIsEmptyElement(reader)),
-      is_text(type == XML_READER_TYPE_TEXT)
+      is_text(type == XML_READER_TYPE_TEXT),
+      is_space(type == XML_READER_TYPE_SIGNIFICANT_WHITESPACE)
     {
     }
   };
@@ -199,10 +212,10 @@ public:
   std::string
   read_data()
   {
-    if (!curr.is_text && !curr.element_end)
+    if (!curr.is_text && !curr.is_space && !curr.element_end)
     {
       read();
-      if (!curr.is_text && !curr.element_end) {
+      if (!curr.is_text && !curr.is_space && !curr.element_end) {
         std::string err = "text is expected at " + get_context();
         throw XML_RPC_violation(err);
       }
@@ -248,6 +261,9 @@ Parser::parse(BuilderBase& builder)
 
     } else if (p.is_text && builder.expects_text()) {
       builder.visit_text(get_data());
+
+    } else if (p.is_space && builder.expects_text()) {
+      builder.visit_space(get_data());
     }
 
     if (builder.wants_exit())
diff --git a/libiqxmlrpc/parser2.h b/libiqxmlrpc/parser2.h
index 8974274..27080ad 100644
--- a/libiqxmlrpc/parser2.h
+++ b/libiqxmlrpc/parser2.h
@@ -26,6 +26,10 @@ public:
   void
   visit_text(const std::string&);
 
+  //! Text that consists of white space only.
+  void
+  visit_space(const std::string&);
+
   bool
   expects_text() const
   {
@@ -72,6 +76,9 @@ protected:
   virtual void
   do_visit_text(const std::string&);
 
+  virtual void
+  do_visit_space(const std::string&);
+
   Parser& parser_;
   int depth_;
   bool expect_text_;
diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 3a4e561..eec8532 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -261,6 +261,13 @@ ValueBuilder::do_visit_text(const std::string& text)
   }
 }
 
+void
+ValueBuilder::do_visit_space(const std::string& text)
+{
+  if (state_.get_state() == STRING && !retval.get())
+    retval.reset(new String(text));
+}
+
 } // namespace iqxmlrpc
 
 // vim:sw=2:ts=2:et:
diff --git a/libiqxmlrpc/value_parser.h b/libiqxmlrpc/value_parser.h
index 5eee11c..8c51a82 100644
--- a/libiqxmlrpc/value_parser.h
+++ b/libiqxmlrpc/value_parser.h
@@ -37,6 +37,9 @@ private:
   virtual void
   do_visit_text(const std::string&);
 
+  virtual void
+  do_visit_space(const std::string&);
+
   StateMachine state_;
 };
 
-- 
2.43.0

