From 34017d461394999016d33fc171c5307786e9fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:37 +0000
Subject: [PATCH 01/25] fix: consume the unread rest of a request body before
 reading the next request

A handler that answers without reading the request body left the body in the
connection, where it was parsed as the next pipelined request.
---
 include/fitoria/web/http_server.hpp | 31 +++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index a119e23..8bee470 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -31,6 +31,7 @@
 #include <fitoria/web/test_utils.hpp>
 #include <fitoria/web/websocket.hpp>
 
+#include <array>
 #include <system_error>
 
 FITORIA_NAMESPACE_BEGIN
@@ -491,6 +492,15 @@ private:
         if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
           co_return unexpected { exp.error() };
         }
+
+        // the next request begins after the body of this one, consume what has
+        // been left unread by the handler
+        if (keep_alive) {
+          if (auto exp = co_await discard_body(stream, *buffer, *parser);
+              !exp) {
+            co_return unexpected { exp.error() };
+          }
+        }
       }
 
       if (!keep_alive) {
@@ -501,6 +511,27 @@ private:
     co_return expected<void, std::error_code>();
   }
 
+  template <typename Stream, typename Parser>
+  auto discard_body(Stream& stream, flat_buffer& buffer, Parser& parser) const
+      -> awaitable<expected<void, std::error_code>>
+  {
+    std::array<std::byte, 4096> discarded;
+
+    while (!parser.is_done()) {
+      parser.get().body().data = discarded.data();
+      parser.get().body().size = discarded.size();
+
+      if (auto bytes_read = co_await boost::beast::http::async_read_some(
+              stream, buffer, parser, use_awaitable);
+          !bytes_read
+          && bytes_read.error() != boost::beast::http::error::need_buffer) {
+        co_return unexpected { bytes_read.error() };
+      }
+    }
+
+    co_return expected<void, std::error_code>();
+  }
+
   template <typename Stream>
   auto do_response(Stream& stream, response& res, bool keep_alive) const
       -> awaitable<expected<void, std::error_code>>
-- 
2.43.0


From 5265aedfe088c5afaf5a19e8d64c1ca0a51f64cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:12 +0000
Subject: [PATCH 02/25] fix: do not write empty pieces of a body stream as
 chunks

A chunk of size zero terminates the body, whatever the stream yielded
afterwards was sent as the beginning of another response.
---
 include/fitoria/web/async_write_chunks.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fitoria/web/async_write_chunks.hpp b/include/fitoria/web/async_write_chunks.hpp
index b0586d0..0a5b184 100644
--- a/include/fitoria/web/async_write_chunks.hpp
+++ b/include/fitoria/web/async_write_chunks.hpp
@@ -34,6 +34,10 @@ auto async_write_chunks(AsyncWritableStream&& to, AsyncReadableStream&& from)
        data = co_await from.async_read_some()) {
     auto& d = *data;
     if (d) {
+      // a chunk of size zero would mark the end of the body
+      if (d->empty()) {
+        continue;
+      }
       if (auto result = co_await async_write(
               to, make_chunk(net::buffer(*d)), use_awaitable);
           !result) {
-- 
2.43.0


From d1bbd91561197c3aeef16b7674282b6535ad0eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:33 +0000
Subject: [PATCH 03/25] fix: do not send a body in response to HEAD requests

The client does not expect one and takes it as the beginning of the next
response on a persistent connection.
---
 include/fitoria/web/http_server.hpp | 53 ++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 8bee470..d809979 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -295,7 +295,14 @@ public:
            std::string path,
            test_request tr,
            ResponseHandler handler) -> awaitable<void> {
-          co_await handler(*(co_await do_http_request(stream, path, tr)));
+          auto res = *(co_await do_http_request(stream, path, tr));
+          if (tr.method() == http::verb::head) {
+            res = test_response(res.status(),
+                                res.version(),
+                                res.headers(),
+                                async_readable_vector_stream());
+          }
+          co_await handler(std::move(res));
         }(stream, std::move(path), std::move(req), std::move(handler)),
         net::detached);
   }
@@ -414,7 +421,8 @@ private:
               = web::response::bad_request()
                     .set_header(http::field::content_type, mime::text_plain())
                     .set_body("request headers size exceeds limit");
-          co_return co_await do_response(stream, res, false);
+          co_return co_await do_response(
+              stream, res, false, parser->get().method() == http::verb::head);
         } else {
           co_return unexpected { bytes_read.error() };
         }
@@ -489,7 +497,12 @@ private:
           co_return unexpected { result.error() };
         }
       } else {
-        if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
+        if (auto exp
+            = co_await do_response(stream,
+                                   res,
+                                   keep_alive,
+                                   parser->get().method() == http::verb::head);
+            !exp) {
           co_return unexpected { exp.error() };
         }
 
@@ -533,7 +546,10 @@ private:
   }
 
   template <typename Stream>
-  auto do_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_response(Stream& stream,
+                   response& res,
+                   bool keep_alive,
+                   bool header_only) const
       -> awaitable<expected<void, std::error_code>>
   {
     co_return co_await std::visit(
@@ -541,10 +557,12 @@ private:
                       return do_null_body_response(stream, res, keep_alive);
                     },
                      [&](any_body::sized) {
-                       return do_sized_response(stream, res, keep_alive);
+                       return do_sized_response(
+                           stream, res, keep_alive, header_only);
                      },
                      [&](any_body::chunked) {
-                       return do_chunked_response(stream, res, keep_alive);
+                       return do_chunked_response(
+                           stream, res, keep_alive, header_only);
                      } },
         res.body().size());
   }
@@ -573,10 +591,14 @@ private:
   }
 
   template <typename Stream>
-  auto do_sized_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_sized_response(Stream& stream,
+                         response& res,
+                         bool keep_alive,
+                         bool header_only) const
       -> awaitable<expected<void, std::error_code>>
   {
     using boost::beast::http::response;
+    using boost::beast::http::response_serializer;
     using boost::beast::http::vector_body;
 
     auto r = response<vector_body<std::byte>>(
@@ -591,11 +613,20 @@ private:
     r.keep_alive(keep_alive);
     r.prepare_payload();
 
-    co_return co_await async_write(stream, r, use_awaitable);
+    auto ser = response_serializer<vector_body<std::byte>>(r);
+
+    if (header_only) {
+      co_return co_await async_write_header(stream, ser, use_awaitable);
+    }
+
+    co_return co_await async_write(stream, ser, use_awaitable);
   }
 
   template <typename Stream>
-  auto do_chunked_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_chunked_response(Stream& stream,
+                           response& res,
+                           bool keep_alive,
+                           bool header_only) const
       -> awaitable<expected<void, std::error_code>>
   {
     using boost::beast::http::empty_body;
@@ -615,6 +646,10 @@ private:
       co_return unexpected { result.error() };
     }
 
+    if (header_only) {
+      co_return expected<void, std::error_code>();
+    }
+
     co_return co_await async_write_chunks(stream, res.body().stream());
   }
 
-- 
2.43.0


From 878fc50902af2ed61705359592038eaa95fd4221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 04/25] fix: run every connection on a strand of its own

With an executor run by several threads (example/web/basic/thread_pool.cpp)
the timeout of a stream closed its socket on one thread while another was
completing a read on it.
---
 include/fitoria/web/http_server.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index d809979..9decec6 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -308,13 +308,27 @@ public:
   }
 
 private:
+  // The timeout of a stream must not fire concurrently with the operations on
+  // it, which happens when the executor is run by more than one thread.
+  auto make_session_executor() const -> executor_type
+  {
+    if constexpr (std::is_constructible_v<executor_type,
+                                          net::strand<executor_type>>) {
+      return executor_type(net::make_strand(ex_));
+    } else {
+      return ex_;
+    }
+  }
+
   template <typename Protocol>
   auto do_listen(socket_acceptor<Protocol> acceptor) const -> awaitable<void>
   {
     for (;;) {
-      if (auto socket = co_await acceptor.async_accept(use_awaitable); socket) {
+      auto ex = make_session_executor();
+      if (auto socket = co_await acceptor.async_accept(ex, use_awaitable);
+          socket) {
         net::co_spawn(
-            ex_,
+            ex,
             do_session(shared_basic_stream<Protocol>(std::move(*socket))),
             exception_handler_);
       }
@@ -327,8 +341,10 @@ private:
                  net::ssl::context& ssl_ctx) const -> awaitable<void>
   {
     for (;;) {
-      if (auto socket = co_await acceptor.async_accept(use_awaitable); socket) {
-        net::co_spawn(ex_,
+      auto ex = make_session_executor();
+      if (auto socket = co_await acceptor.async_accept(ex, use_awaitable);
+          socket) {
+        net::co_spawn(ex,
                       do_session(shared_ssl_stream<Protocol>(std::move(*socket),
                                                              ssl_ctx)),
                       exception_handler_);
-- 
2.43.0


From e542a10f2145c46d520099279a84ba8ba80d6183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 05/25] fix: answer refused websocket upgrades as ordinary
 requests

A request to upgrade was accepted whatever the handler had responded: the
decorator read a response that had been destroyed, and without a websocket
handler the empty callback was invoked. After a session the connection was
read as HTTP again.
---
 include/fitoria/web/http_server.hpp | 42 ++++++++++++++++-------------
 include/fitoria/web/websocket.hpp   | 17 ++++++++++--
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 9decec6..9c0b603 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -508,27 +508,33 @@ private:
       if (upgrade) {
         auto& ws = *std::any_cast<websocket>(
             &(*session_state)[std::type_index(typeid(websocket))]);
-        ws.set_response(std::move(res));
-        if (auto result = co_await ws.run(parser->get()); !result) {
-          co_return unexpected { result.error() };
+        if (ws.is_accepted(res)) {
+          ws.set_response(std::move(res));
+          // whatever follows on this connection is not HTTP
+          co_return co_await ws.run(parser->get());
         }
-      } else {
-        if (auto exp
-            = co_await do_response(stream,
-                                   res,
-                                   keep_alive,
-                                   parser->get().method() == http::verb::head);
-            !exp) {
-          co_return unexpected { exp.error() };
+
+        // the upgrade is refused, respond and go on with HTTP
+        if (request_timeout_) {
+          get_lowest_layer(stream).expires_after(*request_timeout_);
         }
+      }
 
-        // the next request begins after the body of this one, consume what has
-        // been left unread by the handler
-        if (keep_alive) {
-          if (auto exp = co_await discard_body(stream, *buffer, *parser);
-              !exp) {
-            co_return unexpected { exp.error() };
-          }
+      if (auto exp
+          = co_await do_response(stream,
+                                 res,
+                                 keep_alive,
+                                 parser->get().method() == http::verb::head);
+          !exp) {
+        co_return unexpected { exp.error() };
+      }
+
+      // the next request begins after the body of this one, consume what has
+      // been left unread by the handler
+      if (keep_alive) {
+        if (auto exp = co_await discard_body(stream, *buffer, *parser);
+            !exp) {
+          co_return unexpected { exp.error() };
         }
       }
 
diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index e8753c2..1ea8ffd 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -243,6 +243,11 @@ public:
       callback_ = std::move(callback);
     }
 
+    auto has_callback() const noexcept -> bool
+    {
+      return static_cast<bool>(callback_);
+    }
+
     auto callback() noexcept -> callback_type&
     {
       FITORIA_ASSERT(callback_);
@@ -441,8 +446,8 @@ private:
   {
     namespace ws = boost::beast::websocket;
 
-    if (auto res = impl_->release_response();
-        !std::holds_alternative<any_body::null>(res.body().size())) {
+    auto res = impl_->release_response();
+    if (!std::holds_alternative<any_body::null>(res.body().size())) {
       auto body
           = co_await async_read_until_eof<std::string>(res.body().stream());
       if (!body) {
@@ -523,6 +528,7 @@ private:
       builder.set_header(http::field::sec_websocket_version, "13");
       impl_->set_response(builder.set_body(
           make_error_code(ws::error::bad_sec_version).message()));
+      return;
     }
 
     builder.set_header(http::field::upgrade, "websocket");
@@ -538,6 +544,13 @@ private:
     impl_->set_response(builder.build());
   }
 
+  // the handler has accepted the upgrade and the request was valid
+  auto is_accepted(const response& res) const noexcept -> bool
+  {
+    return impl_->has_callback()
+        && res.status() == http::status::switching_protocols;
+  }
+
   void set_response(response res)
   {
     impl_->set_response(std::move(res));
-- 
2.43.0


From ebea4ff9940df1ed6612c913c98be1c09ae95a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 06/25] fix: bound the end of a connection after its websocket
 session

The stream has no timeout once upgraded, so closing a TLS connection
after its session could wait forever for a peer that is gone, and every
orderly session ended with an attempt to shut down a closed stream.
---
 include/fitoria/web/http_server.hpp | 12 +++++++++++-
 include/fitoria/web/websocket.hpp   | 13 +++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 9c0b603..9397c80 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -376,6 +376,10 @@ private:
       FITORIA_THROW_OR(std::system_error(result.error()), co_return);
     }
 
+    if (!get_lowest_layer(stream).socket().is_open()) {
+      co_return;
+    }
+
     if (auto result = co_await stream.async_shutdown(use_awaitable); !result) {
       FITORIA_THROW_OR(std::system_error(result.error()), co_return);
     }
@@ -510,8 +514,14 @@ private:
             &(*session_state)[std::type_index(typeid(websocket))]);
         if (ws.is_accepted(res)) {
           ws.set_response(std::move(res));
+          auto result = co_await ws.run(parser->get());
+          // the websocket's own timeout has ended with the session, what is
+          // left to be done must not take forever
+          if (request_timeout_) {
+            get_lowest_layer(stream).expires_after(*request_timeout_);
+          }
           // whatever follows on this connection is not HTTP
-          co_return co_await ws.run(parser->get());
+          co_return result;
         }
 
         // the upgrade is refused, respond and go on with HTTP
diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index 1ea8ffd..4d661a1 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -238,6 +238,18 @@ public:
           stream_);
     }
 
+    // once the session has ended there is no one left to say goodbye to
+    void close_socket_if_ended()
+    {
+      std::visit(
+          [](auto& stream) {
+            if (!stream.is_open()) {
+              beast_close_socket(stream.next_layer());
+            }
+          },
+          stream_);
+    }
+
     void set_callback(callback_type callback)
     {
       callback_ = std::move(callback);
@@ -468,6 +480,7 @@ private:
 
     auto ctx = context(*this);
     co_await impl_->callback()(ctx);
+    impl_->close_socket_if_ended();
     co_return expected<void, std::error_code>();
   }
 
-- 
2.43.0


From f85d9269eb73f869ec2370352630865f1bbd1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 07/25] fix: build the request once in set_body and set_json of
 its builder

---
 include/fitoria/web/request.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/request.hpp b/include/fitoria/web/request.hpp
index a9ae7d5..244635e 100644
--- a/include/fitoria/web/request.hpp
+++ b/include/fitoria/web/request.hpp
@@ -410,8 +410,7 @@ public:
   /// @endverbatim
   auto set_body(std::string_view sv) -> request
   {
-    set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
@@ -444,8 +443,7 @@ public:
   {
     auto str = boost::json::serialize(jv);
     set_header(http::field::content_type, mime::application_json());
-    set_body(std::as_bytes(std::span(str.begin(), str.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(str.begin(), str.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 85d16c3b3e9227b0ffb70ea780ba79966673a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 08/25] fix: move every route sharing a new static prefix below
 it

---
 include/fitoria/web/router.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index b4b5bb4..01eb96e 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -75,18 +75,21 @@ public:
         }
       }
 
-      for (std::size_t i = 0; i < statics_.size(); ++i) {
-        if (statics_[i].prefix_.starts_with(token)) {
-          auto n = node(token);
-          statics_[i].prefix_.erase(0, token.size());
-          n.statics_.push_back(std::move(statics_[i]));
-          std::swap(n, statics_[i]);
-          return statics_[i].try_insert(std::move(route), token_index + 1);
+      // `token` may be the prefix of any number of existing nodes, all of them
+      // must become the children of the new node.
+      auto n = node(token);
+      for (auto it = statics_.begin(); it != statics_.end();) {
+        if (it->prefix_.starts_with(token)) {
+          it->prefix_.erase(0, token.size());
+          n.statics_.push_back(std::move(*it));
+          it = statics_.erase(it);
+        } else {
+          ++it;
         }
       }
 
-      return statics_.emplace_back(token).try_insert(std::move(route),
-                                                     token_index + 1);
+      return statics_.emplace_back(std::move(n))
+          .try_insert(std::move(route), token_index + 1);
     }
 
     auto try_insert_param(route_type route,
-- 
2.43.0


From d7df7866137946c2fb97beb97e6b81bc355f3907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 09/25] fix: match static tokens literally and never match
 empty parameters

---
 include/fitoria/web/path_matcher.hpp | 11 +++++++++--
 include/fitoria/web/router.hpp       |  4 +++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/web/path_matcher.hpp b/include/fitoria/web/path_matcher.hpp
index 72b0409..17e73d9 100644
--- a/include/fitoria/web/path_matcher.hpp
+++ b/include/fitoria/web/path_matcher.hpp
@@ -78,12 +78,19 @@ private:
     std::string regex;
     for (auto& token : tokens) {
       if (token.kind == path_token_kind::static_) {
-        regex += token.value;
+        // the characters in static tokens must be matched literally.
+        for (auto c : token.value) {
+          if (std::string_view(R"(.[{}()\*+?|^$)").find(c)
+              != std::string_view::npos) {
+            regex += '\\';
+          }
+          regex += c;
+        }
       } else if (token.kind == path_token_kind::param) {
         // {name} => (?<name>pattern)
         regex += "(?<";
         regex += token.value;
-        regex += ">[^{}/]+)";
+        regex += ">[^/]+)";
       } else if (token.kind == path_token_kind::wildcard) {
         // {name} => (?<name>pattern)
         regex += "(?<";
diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index 01eb96e..42eb3b5 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -150,7 +150,9 @@ public:
         -> expected<const route_type&, std::error_code>
     {
       if (params_) {
-        if (auto pos = path.find('/'); pos != std::string_view::npos) {
+        if (auto pos = path.find('/'); pos == 0) {
+          return unexpected { make_error_code(error::route_not_exists) };
+        } else if (pos != std::string_view::npos) {
           return params_->try_find(method, path.substr(pos));
         }
         return params_->try_find(method, std::string_view());
-- 
2.43.0


From 9684751982cca661be8f95ede4901cb34d5e8806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 10/25] fix: do not share state maps between scopes and routes
 being built

---
 include/fitoria/web/http_server.hpp   |  4 ++--
 include/fitoria/web/scope.hpp         | 10 ++++++----
 include/fitoria/web/state_storage.hpp | 12 +++++++++---
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 9397c80..990882e 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -459,7 +459,7 @@ private:
         // we don't handle expect: 100-continue here,
         // boost::beast::websocket::stream::accept() will do it for us
         (*session_state)[std::type_index(typeid(websocket))]
-            = websocket(stream);
+            = std::make_shared<std::any>(websocket(stream));
       } else {
         if (auto it = parser->get().find(http::field::expect);
             it != parser->get().end()
@@ -511,7 +511,7 @@ private:
 
       if (upgrade) {
         auto& ws = *std::any_cast<websocket>(
-            &(*session_state)[std::type_index(typeid(websocket))]);
+            (*session_state)[std::type_index(typeid(websocket))].get());
         if (ws.is_accepted(res)) {
           ws.set_response(std::move(res));
           auto result = co_await ws.run(parser->get());
diff --git a/include/fitoria/web/scope.hpp b/include/fitoria/web/scope.hpp
index 1ff3a32..3367da6 100644
--- a/include/fitoria/web/scope.hpp
+++ b/include/fitoria/web/scope.hpp
@@ -51,12 +51,14 @@ public:
     using state_type = std::decay_t<State>;
     static_assert(std::copy_constructible<state_type>);
 
-    auto state_map = state_map_;
-    (*state_map)[std::type_index(typeid(state_type))]
-        = std::any(std::forward<State>(state));
+    // do not modify the map shared with the routes already being served and
+    // with the object this one is derived from.
+    auto new_state_map = std::make_shared<state_map>(*state_map_);
+    (*new_state_map)[std::type_index(typeid(state_type))]
+        = std::make_shared<std::any>(std::forward<State>(state));
 
     return scope_impl<Path, std::tuple<Middlewares...>, std::tuple<Routes...>>(
-        std::move(state_map), middlewares_, routes_);
+        std::move(new_state_map), middlewares_, routes_);
   }
 
   template <typename Middleware>
diff --git a/include/fitoria/web/state_storage.hpp b/include/fitoria/web/state_storage.hpp
index 56dbb80..e7757ce 100644
--- a/include/fitoria/web/state_storage.hpp
+++ b/include/fitoria/web/state_storage.hpp
@@ -24,7 +24,10 @@ FITORIA_NAMESPACE_BEGIN
 
 namespace web {
 
-using state_map = std::unordered_map<std::type_index, std::any>;
+// states are held by pointers so that the same instance is shared between the
+// copies of the map.
+using state_map
+    = std::unordered_map<std::type_index, std::shared_ptr<std::any>>;
 using shared_state_map = std::shared_ptr<state_map>;
 using shared_state_maps = std::vector<shared_state_map>;
 
@@ -52,8 +55,11 @@ public:
     auto copy = *this;
     if (copy.maps_.empty()) {
       copy.maps_.push_back(std::make_shared<state_map>());
+    } else {
+      // do not modify the map shared with others.
+      copy.maps_.front() = std::make_shared<state_map>(*copy.maps_.front());
     }
-    (*copy.maps_.front())[ti] = std::move(obj);
+    (*copy.maps_.front())[ti] = std::make_shared<std::any>(std::move(obj));
 
     return copy;
   }
@@ -64,7 +70,7 @@ public:
     static_assert(not_cvref<T>, "T must not be cvref qualified");
     for (auto& map : maps_) {
       if (auto it = map->find(std::type_index(typeid(T))); it != map->end()) {
-        return *std::any_cast<T>(&it->second);
+        return *std::any_cast<T>(it->second.get());
       }
     }
 
-- 
2.43.0


From a44fbc6692f31d950a2c2ab2d6ba49f8c2f8cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 11/25] fix: refuse ranges outside of the file and clamp suffix
 ranges

---
 include/fitoria/http/header/range.hpp | 4 +++-
 include/fitoria/web/static_file.hpp   | 9 ++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/http/header/range.hpp b/include/fitoria/http/header/range.hpp
index a981173..e71825b 100644
--- a/include/fitoria/http/header/range.hpp
+++ b/include/fitoria/http/header/range.hpp
@@ -15,6 +15,7 @@
 #include <fitoria/core/optional.hpp>
 #include <fitoria/core/strings.hpp>
 
+#include <algorithm>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -165,8 +166,9 @@ public:
 
     if (unit[1].starts_with("-")) {
       if (auto suffix = from_string<std::uint64_t>(unit[1].substr(1)); suffix) {
+        auto length = std::min(*suffix, total_length);
         return range(std::string(unit[0]),
-                     { { total_length - *suffix, *suffix } });
+                     { { total_length - length, length } });
       }
     } else {
       if (auto subranges = parse_subranges(unit[1], total_length); subranges) {
diff --git a/include/fitoria/web/static_file.hpp b/include/fitoria/web/static_file.hpp
index 51b07aa..7297fda 100644
--- a/include/fitoria/web/static_file.hpp
+++ b/include/fitoria/web/static_file.hpp
@@ -208,7 +208,7 @@ public:
     if (auto header = req.headers().get(http::field::range); header) {
       if (auto range = http::header::range::parse(*header, file->size()); range
           && cmp_eq_ci(range->unit(), "bytes")
-          && (*range)[0].offset + (*range)[0].length <= file->size()) {
+          && is_satisfiable((*range)[0], file->size())) {
         return static_file(std::move(*file),
                            ct,
                            cd,
@@ -369,6 +369,13 @@ private:
     return fmt::format(R"(attachment; filename="{}")", p.filename().string());
   }
 
+  static auto is_satisfiable(const http::header::range::subrange_t& range,
+                             std::uint64_t size) noexcept -> bool
+  {
+    return range.length > 0 && range.offset < size
+        && range.length <= size - range.offset;
+  }
+
   static auto check_if_not_modified(
       const http::header::entity_tag& etag,
       [[maybe_unused]] const std::chrono::time_point<std::chrono::file_clock>&
-- 
2.43.0


From 7ad2dfe0e5c564f73e8e5ff7c838d3590a3bbe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 12/25] fix: report truncated and trailing bytes of compressed
 bodies as errors

---
 .../detail/async_brotli_inflate_stream.hpp    | 17 +++++++-
 .../detail/async_gzip_inflate_stream.hpp      | 19 +++++++-
 .../detail/async_inflate_stream.hpp           | 43 ++++++++++++++++++-
 3 files changed, 76 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
index db49e94..86e6b16 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
@@ -106,6 +106,10 @@ public:
   {
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !done_) {
+        // the body ends in the middle of the compressed stream
+        co_return unexpected { make_error_code(brotli_error::need_more_input) };
+      }
       co_return nullopt;
     }
 
@@ -116,6 +120,8 @@ public:
       co_return bytes();
     }
 
+    started_ = true;
+
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
     auto buffer = dynamic_buffer<bytes>();
@@ -130,6 +136,9 @@ public:
                             writable.size());
 
       auto ec = inflater_.write(p);
+      if (!ec) {
+        done_ = true;
+      }
       if (ec == brotli_error::need_more_input
           || ec == brotli_error::need_more_output) {
         ec = {};
@@ -141,7 +150,11 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (readable.size() == 0 && p.avail_out > 0) {
+      if (done_ && readable.size() > 0) {
+        // nothing is expected to be behind the compressed stream
+        co_return unexpected { make_error_code(brotli_error::error) };
+      }
+      if (done_ || (readable.size() == 0 && p.avail_out > 0)) {
         break;
       }
     }
@@ -152,6 +165,8 @@ public:
 private:
   NextLayer next_;
   brotli_decoder inflater_;
+  bool started_ = false;
+  bool done_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
index c8e5e65..0b1a946 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
@@ -43,6 +43,10 @@ public:
 
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !done_) {
+        // the body ends in the middle of the compressed stream
+        co_return unexpected { make_error_code(error::need_buffers) };
+      }
       co_return nullopt;
     }
 
@@ -53,6 +57,8 @@ public:
       co_return bytes();
     }
 
+    started_ = true;
+
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
     auto buffer = dynamic_buffer<bytes>();
@@ -71,6 +77,11 @@ public:
       inflater_.write(p, Flush::sync, ec);
 
       if (ec == error::end_of_stream) {
+        done_ = true;
+        ec = {};
+      }
+      if (ec == error::need_buffers && readable.size() == 0) {
+        // the previous output filled up the buffer exactly
         ec = {};
       }
       if (ec) {
@@ -80,7 +91,11 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (readable.size() == 0 && p.avail_out > 0) {
+      if (done_ && readable.size() > 0) {
+        // nothing is expected to be behind the compressed stream
+        co_return unexpected { make_error_code(error::stream_error) };
+      }
+      if (done_ || (readable.size() == 0 && p.avail_out > 0)) {
         break;
       }
     }
@@ -91,6 +106,8 @@ public:
 private:
   NextLayer next_;
   gzip_inflate_stream inflater_;
+  bool started_ = false;
+  bool done_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
index c97fe43..0e4556c 100644
--- a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
@@ -40,6 +40,10 @@ public:
 
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !done_ && !is_end_of_stream()) {
+        // the body ends in the middle of the compressed stream
+        co_return unexpected { make_error_code(error::need_buffers) };
+      }
       co_return nullopt;
     }
 
@@ -50,6 +54,8 @@ public:
       co_return bytes();
     }
 
+    started_ = true;
+
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
     auto buffer = dynamic_buffer<bytes>();
@@ -68,6 +74,11 @@ public:
       inflater_.write(p, Flush::sync, ec);
 
       if (ec == error::end_of_stream) {
+        done_ = true;
+        ec = {};
+      }
+      if (ec == error::need_buffers && readable.size() == 0) {
+        // the previous output filled up the buffer exactly
         ec = {};
       }
       if (ec) {
@@ -77,7 +88,11 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (readable.size() == 0 && p.avail_out > 0) {
+      if (done_ && readable.size() > 0) {
+        // nothing is expected to be behind the compressed stream
+        co_return unexpected { make_error_code(error::stream_error) };
+      }
+      if (done_ || (readable.size() == 0 && p.avail_out > 0)) {
         break;
       }
     }
@@ -86,8 +101,34 @@ public:
   }
 
 private:
+  // The decoder looks ahead for more bits than the code of the end of the stream
+  // might have. Give it something to look at, without any space for the output,
+  // to know if there is nothing but the end left.
+  auto is_end_of_stream() -> bool
+  {
+    using boost::beast::zlib::error;
+    using boost::beast::zlib::Flush;
+    using boost::beast::zlib::z_params;
+
+    const auto in = std::byte(0x55);
+    auto out = std::byte();
+
+    auto p = z_params();
+    p.next_in = &in;
+    p.avail_in = 1;
+    p.next_out = &out;
+    p.avail_out = 0;
+
+    boost::system::error_code ec;
+    inflater_.write(p, Flush::sync, ec);
+
+    return ec == error::end_of_stream;
+  }
+
   NextLayer next_;
   boost::beast::zlib::inflate_stream inflater_;
+  bool started_ = false;
+  bool done_ = false;
 };
 
 template <typename NextLayer>
-- 
2.43.0


From 88fe3069fb3e09a1acf9ee74fc89573cae8e2964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 13/25] fix: consume all of the input when compressing a stream

---
 .../detail/async_brotli_deflate_stream.hpp    | 46 +++++++-----
 .../detail/async_deflate_stream.hpp           | 72 ++++++++++++-------
 .../detail/async_gzip_deflate_stream.hpp      | 72 ++++++++++++-------
 3 files changed, 119 insertions(+), 71 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
index 1d7e165..602fda3 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
@@ -140,18 +140,21 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
 
-      auto p = broti_params(nullptr, 0, writable.data(), writable.size());
+      do {
+        auto writable = buffer.prepare(65536);
 
-      auto ec = deflater_.write(p, brotli_encoder_operation::finish);
+        auto p = broti_params(nullptr, 0, writable.data(), writable.size());
 
-      FITORIA_ASSERT(ec != brotli_error::need_more_output);
-      if (ec) {
-        co_return unexpected { ec };
-      }
+        auto ec = deflater_.write(p, brotli_encoder_operation::finish);
+
+        if (ec) {
+          co_return unexpected { ec };
+        }
+
+        buffer.commit(writable.size() - p.avail_out);
+      } while (!deflater_.is_done());
 
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -163,21 +166,30 @@ public:
       co_return bytes();
     }
 
+    auto input = dynamic_buffer<bytes>(std::move(*readable));
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
 
-    auto p = broti_params(
-        readable->data(), readable->size(), writable.data(), writable.size());
+    for (;;) {
+      auto writable
+          = buffer.prepare(std::max(input.size(), std::size_t(65536)));
+
+      auto p = broti_params(
+          input.cdata().data(), input.size(), writable.data(), writable.size());
 
-    auto ec = deflater_.write(p, brotli_encoder_operation::process);
+      auto ec = deflater_.write(p, brotli_encoder_operation::process);
 
-    FITORIA_ASSERT(ec != brotli_error::need_more_output);
-    if (ec) {
-      co_return unexpected { ec };
+      if (ec) {
+        co_return unexpected { ec };
+      }
+
+      input.consume(input.size() - p.avail_in);
+      buffer.commit(writable.size() - p.avail_out);
+
+      if (input.size() == 0 && p.avail_out > 0) {
+        break;
+      }
     }
 
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
diff --git a/include/fitoria/web/middleware/detail/async_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
index dd75801..e180505 100644
--- a/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
@@ -47,26 +47,30 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
 
-      auto p = z_params();
-      p.next_in = nullptr;
-      p.avail_in = 0;
-      p.next_out = writable.data();
-      p.avail_out = writable.size();
+      for (;;) {
+        auto writable = buffer.prepare(65536);
 
-      boost::system::error_code ec;
-      deflater_.write(p, Flush::finish, ec);
+        auto p = z_params();
+        p.next_in = nullptr;
+        p.avail_in = 0;
+        p.next_out = writable.data();
+        p.avail_out = writable.size();
 
-      FITORIA_ASSERT(ec != error::need_buffers);
-      if (ec == error::end_of_stream) {
-        ec = {};
-      }
-      if (ec) {
-        co_return unexpected { ec };
+        boost::system::error_code ec;
+        deflater_.write(p, Flush::finish, ec);
+
+        if (ec && ec != error::end_of_stream) {
+          co_return unexpected { ec };
+        }
+
+        buffer.commit(writable.size() - p.avail_out);
+
+        if (ec == error::end_of_stream) {
+          break;
+        }
       }
 
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -78,24 +82,38 @@ public:
       co_return bytes();
     }
 
+    auto input = dynamic_buffer<bytes>(std::move(*readable));
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
 
-    auto p = z_params();
-    p.next_in = readable->data();
-    p.avail_in = readable->size();
-    p.next_out = writable.data();
-    p.avail_out = writable.size();
+    for (;;) {
+      auto writable
+          = buffer.prepare(std::max(input.size(), std::size_t(65536)));
+
+      auto p = z_params();
+      p.next_in = input.cdata().data();
+      p.avail_in = input.size();
+      p.next_out = writable.data();
+      p.avail_out = writable.size();
 
-    boost::system::error_code ec;
-    deflater_.write(p, Flush::none, ec);
+      boost::system::error_code ec;
+      deflater_.write(p, Flush::none, ec);
 
-    if (ec) {
-      co_return unexpected { ec };
+      if (ec == error::need_buffers && input.size() == 0) {
+        // the previous output filled up the buffer exactly
+        ec = {};
+      }
+      if (ec) {
+        co_return unexpected { ec };
+      }
+
+      input.consume(input.size() - p.avail_in);
+      buffer.commit(writable.size() - p.avail_out);
+
+      if (input.size() == 0 && p.avail_out > 0) {
+        break;
+      }
     }
 
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
diff --git a/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
index 2f3b57b..2cb8b8c 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
@@ -50,26 +50,30 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
 
-      auto p = z_params();
-      p.next_in = nullptr;
-      p.avail_in = 0;
-      p.next_out = writable.data();
-      p.avail_out = writable.size();
+      for (;;) {
+        auto writable = buffer.prepare(65536);
 
-      boost::system::error_code ec;
-      deflater_.write(p, Flush::finish, ec);
+        auto p = z_params();
+        p.next_in = nullptr;
+        p.avail_in = 0;
+        p.next_out = writable.data();
+        p.avail_out = writable.size();
 
-      FITORIA_ASSERT(ec != error::need_buffers);
-      if (ec == error::end_of_stream) {
-        ec = {};
-      }
-      if (ec) {
-        co_return unexpected { ec };
+        boost::system::error_code ec;
+        deflater_.write(p, Flush::finish, ec);
+
+        if (ec && ec != error::end_of_stream) {
+          co_return unexpected { ec };
+        }
+
+        buffer.commit(writable.size() - p.avail_out);
+
+        if (ec == error::end_of_stream) {
+          break;
+        }
       }
 
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -81,24 +85,38 @@ public:
       co_return bytes();
     }
 
+    auto input = dynamic_buffer<bytes>(std::move(*readable));
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
 
-    auto p = z_params();
-    p.next_in = readable->data();
-    p.avail_in = readable->size();
-    p.next_out = writable.data();
-    p.avail_out = writable.size();
+    for (;;) {
+      auto writable
+          = buffer.prepare(std::max(input.size(), std::size_t(65536)));
+
+      auto p = z_params();
+      p.next_in = input.cdata().data();
+      p.avail_in = input.size();
+      p.next_out = writable.data();
+      p.avail_out = writable.size();
 
-    boost::system::error_code ec;
-    deflater_.write(p, Flush::none, ec);
+      boost::system::error_code ec;
+      deflater_.write(p, Flush::none, ec);
 
-    if (ec) {
-      co_return unexpected { ec };
+      if (ec == error::need_buffers && input.size() == 0) {
+        // the previous output filled up the buffer exactly
+        ec = {};
+      }
+      if (ec) {
+        co_return unexpected { ec };
+      }
+
+      input.consume(input.size() - p.avail_in);
+      buffer.commit(writable.size() - p.avail_out);
+
+      if (input.size() == 0 && p.avail_out > 0) {
+        break;
+      }
     }
 
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
-- 
2.43.0


From 8fffea952338020957e59ac7c407135abead7a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 14/25] fix: report a file that became shorter while being read
 as error

---
 include/fitoria/web/async_readable_file_stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/async_readable_file_stream.hpp b/include/fitoria/web/async_readable_file_stream.hpp
index 2e3a46a..4b8d9f3 100644
--- a/include/fitoria/web/async_readable_file_stream.hpp
+++ b/include/fitoria/web/async_readable_file_stream.hpp
@@ -80,7 +80,8 @@ public:
       remaining_ -= *result;
       co_return buffer;
     } else if (result.error() == net::error::eof) {
-      co_return nullopt;
+      // the file is shorter than it was when the stream was created
+      co_return unexpected { std::make_error_code(std::errc::io_error) };
     } else {
       co_return unexpected { result.error() };
     }
-- 
2.43.0


From 00daacc979e5c47f020d84a0764240ac1dd2e780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 15/25] fix: decode plus signs in forms as spaces

---
 include/fitoria/web/detail/as_form.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/detail/as_form.hpp b/include/fitoria/web/detail/as_form.hpp
index b8c385a..089baa6 100644
--- a/include/fitoria/web/detail/as_form.hpp
+++ b/include/fitoria/web/detail/as_form.hpp
@@ -28,7 +28,11 @@ inline expected<query_map, std::error_code> as_form(std::string_view text)
     return unexpected { res.error() };
   }
 
-  auto params = static_cast<boost::urls::params_view>(*res);
+  // spaces are encoded as "+" in "application/x-www-form-urlencoded"
+  auto opts = boost::urls::encoding_opts();
+  opts.space_as_plus = true;
+
+  auto params = boost::urls::params_view(text, opts);
 
   query_map map;
   for (auto kv : params) {
-- 
2.43.0


From b8c5dc9d323cb1eb4cc026865cd4abade6d4298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 16/25] fix: keep the order of log records and write all of
 them before the logger is gone

---
 include/fitoria/log/async_logger.hpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/fitoria/log/async_logger.hpp b/include/fitoria/log/async_logger.hpp
index d2569bf..d46946f 100644
--- a/include/fitoria/log/async_logger.hpp
+++ b/include/fitoria/log/async_logger.hpp
@@ -41,7 +41,15 @@ class async_logger {
   auto async_write_to_all(record_ptr rec) -> awaitable<void>
   {
     for (auto& writer : writers_) {
+#if !FITORIA_NO_EXCEPTIONS
+      try {
+        co_await writer->async_write(rec);
+      } catch (...) {
+        // a failing writer must not stop the others nor the records to come
+      }
+#else
       co_await writer->async_write(rec);
+#endif
     }
   }
 
@@ -49,7 +57,7 @@ class async_logger {
   {
     for (;;) {
       auto rec = co_await channel_.async_receive(use_awaitable);
-      if (!rec) {
+      if (!rec || !*rec) {
         break;
       }
 
@@ -57,10 +65,12 @@ class async_logger {
     }
   }
 
-  auto async_enqueue(record_ptr rec) -> awaitable<void>
+  void enqueue(record_ptr rec)
   {
-    [[maybe_unused]] auto result = co_await channel_.async_send(
-        boost::system::error_code(), rec, use_awaitable);
+    // records are taken from the channel in the order they are sent, must be
+    // done by the thread of the caller.
+    channel_.async_send(
+        boost::system::error_code(), std::move(rec), net::detached);
   }
 
   void log(record::clock_t::time_point time,
@@ -68,10 +78,7 @@ class async_logger {
            level lv,
            std::string msg)
   {
-    net::co_spawn(
-        net::system_executor(),
-        async_enqueue(std::make_shared<record>(time, loc, lv, std::move(msg))),
-        net::detached);
+    enqueue(std::make_shared<record>(time, loc, lv, std::move(msg)));
   }
 
 public:
@@ -112,9 +119,9 @@ public:
 
   ~async_logger()
   {
-    channel_.cancel();
+    // ends the loop after all of the records sent before being written
+    enqueue(nullptr);
 
-    // TODO: investigate if it hangs when `-fsanitizer=address` is on ?
     if (auto status = fut_.wait_for(std::chrono::seconds(30));
         status == std::future_status::ready) {
       fut_.get();
-- 
2.43.0


From 7b48bbb50f9ebe7501bed1aca893aac1fce5faa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 17/25] fix: keep writers and channel alive while the logger is
 still writing

---
 include/fitoria/log/async_logger.hpp | 37 +++++++++++++++++++---------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/fitoria/log/async_logger.hpp b/include/fitoria/log/async_logger.hpp
index d46946f..7df92f4 100644
--- a/include/fitoria/log/async_logger.hpp
+++ b/include/fitoria/log/async_logger.hpp
@@ -33,14 +33,25 @@ class async_logger {
                                               void(boost::system::error_code,
                                                    record_ptr)>;
 
-  std::vector<std::shared_ptr<async_writer>> writers_;
+  // shared with the coroutine writing the records, which may outlive the logger
+  struct state {
+    std::vector<std::shared_ptr<async_writer>> writers;
+    channel_t channel;
+
+    state(std::size_t max_buffer_size)
+        : channel(net::system_executor(), max_buffer_size)
+    {
+    }
+  };
+
   filter filter_;
-  channel_t channel_;
+  std::shared_ptr<state> state_;
   std::future<void> fut_;
 
-  auto async_write_to_all(record_ptr rec) -> awaitable<void>
+  static auto async_write_to_all(std::shared_ptr<state> st, record_ptr rec)
+      -> awaitable<void>
   {
-    for (auto& writer : writers_) {
+    for (auto& writer : st->writers) {
 #if !FITORIA_NO_EXCEPTIONS
       try {
         co_await writer->async_write(rec);
@@ -53,15 +64,16 @@ class async_logger {
     }
   }
 
-  auto async_dequeue_and_write() -> awaitable<void>
+  static auto async_dequeue_and_write(std::shared_ptr<state> st)
+      -> awaitable<void>
   {
     for (;;) {
-      auto rec = co_await channel_.async_receive(use_awaitable);
+      auto rec = co_await st->channel.async_receive(use_awaitable);
       if (!rec || !*rec) {
         break;
       }
 
-      co_await async_write_to_all(std::move(*rec));
+      co_await async_write_to_all(st, std::move(*rec));
     }
   }
 
@@ -69,7 +81,7 @@ class async_logger {
   {
     // records are taken from the channel in the order they are sent, must be
     // done by the thread of the caller.
-    channel_.async_send(
+    state_->channel.async_send(
         boost::system::error_code(), std::move(rec), net::detached);
   }
 
@@ -111,9 +123,10 @@ public:
 
   async_logger(builder builder)
       : filter_(builder.flt_)
-      , channel_(net::system_executor(), builder.max_buffer_size_)
-      , fut_(net::co_spawn(
-            net::system_executor(), async_dequeue_and_write(), net::use_future))
+      , state_(std::make_shared<state>(builder.max_buffer_size_))
+      , fut_(net::co_spawn(net::system_executor(),
+                           async_dequeue_and_write(state_),
+                           net::use_future))
   {
   }
 
@@ -130,7 +143,7 @@ public:
 
   void add_writer(std::shared_ptr<async_writer> writer)
   {
-    writers_.push_back(std::move(writer));
+    state_->writers.push_back(std::move(writer));
   }
 
   template <typename... Args>
-- 
2.43.0


From 95ab00f6252a57f2961daf375a0b0c3cfda543a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 18/25] fix: default exception handler lets non-std exceptions
 escape from the server's event loop

---
 include/fitoria/web/http_server.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 990882e..263bc91 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -695,6 +695,8 @@ private:
         std::rethrow_exception(ptr);
       } catch (const std::exception& ex) {
         log::debug("[{}] exception: {}", name(), ex.what());
+      } catch (...) {
+        log::debug("[{}] exception: unknown", name());
       }
     }
   }
-- 
2.43.0


From 611fba74e66180beb305defc56499cc87018cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 19/25] fix: do not send a sized response whose body failed
 with eof as a complete one

---
 include/fitoria/web/http_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 263bc91..ee0e689 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -639,7 +639,7 @@ private:
     if (auto data = co_await async_read_until_eof<bytes>(res.body().stream());
         data) {
       r.body() = std::move(*data);
-    } else if (data.error() != make_error_code(net::error::eof)) {
+    } else {
       co_return unexpected { data.error() };
     }
     r.keep_alive(keep_alive);
-- 
2.43.0


From ce1fe0ada87e533b8926a7e58aa304c2c5bc7f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 20/25] fix: report a too long local path as an error instead
 of throwing

---
 include/fitoria/web/detail/make_endpoint.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/fitoria/web/detail/make_endpoint.hpp b/include/fitoria/web/detail/make_endpoint.hpp
index 58f6236..1a498bd 100644
--- a/include/fitoria/web/detail/make_endpoint.hpp
+++ b/include/fitoria/web/detail/make_endpoint.hpp
@@ -42,6 +42,11 @@ inline auto make_endpoint(std::string_view ip_addr, std::uint16_t port)
 inline auto make_endpoint(std::string_view file_path)
     -> expected<net::local::stream_protocol::endpoint, std::error_code>
 {
+  // the endpoint throws if the path does not fit
+  if (file_path.size() >= sizeof(net::detail::sockaddr_un_type::sun_path)) {
+    return unexpected { make_error_code(std::errc::filename_too_long) };
+  }
+
   return net::local::stream_protocol::endpoint(file_path);
 }
 
-- 
2.43.0


From 8da5386b3119be7f7a443767eaf085c135c19897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 21/25] fix: accept commas in the entity tags of If-None-Match

---
 include/fitoria/http/header/if_none_match.hpp | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/http/header/if_none_match.hpp b/include/fitoria/http/header/if_none_match.hpp
index dc49bac..ddda28e 100644
--- a/include/fitoria/http/header/if_none_match.hpp
+++ b/include/fitoria/http/header/if_none_match.hpp
@@ -120,20 +120,40 @@ public:
     }
 
     std::vector<entity_tag> etags;
-    auto tokens = split_of(input, ",");
-    for (auto& token : tokens) {
-      auto etag = entity_tag::parse(token);
+    for (;;) {
+      auto pos = find_delimiter(input);
+      auto etag = entity_tag::parse(trim(input.substr(0, pos)));
       if (!etag) {
         return nullopt;
       }
 
       etags.push_back(std::move(*etag));
+      if (pos == std::string_view::npos) {
+        break;
+      }
+      input.remove_prefix(pos + 1);
     }
 
     return if_none_match(std::move(etags));
   }
 
 private:
+  // find the first comma that is not part of a quoted ``entity_tag``
+  static auto
+  find_delimiter(std::string_view input) noexcept -> std::string_view::size_type
+  {
+    bool quoted = false;
+    for (std::string_view::size_type i = 0; i < input.size(); ++i) {
+      if (input[i] == '\"') {
+        quoted = !quoted;
+      } else if (input[i] == ',' && !quoted) {
+        return i;
+      }
+    }
+
+    return std::string_view::npos;
+  }
+
   if_none_match() = default;
 
   explicit if_none_match(std::vector<entity_tag> etags)
-- 
2.43.0


From 85f2fd0605a3bb2d1bd567df6c2abdb2aa68bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 22/25] fix: accept non-ASCII characters in entity tags

---
 include/fitoria/http/header/entity_tag.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/http/header/entity_tag.hpp b/include/fitoria/http/header/entity_tag.hpp
index 40a470a..ffc9598 100644
--- a/include/fitoria/http/header/entity_tag.hpp
+++ b/include/fitoria/http/header/entity_tag.hpp
@@ -173,7 +173,7 @@ public:
 private:
   static auto is_valid_char(char c) noexcept -> bool
   {
-    return c >= 0x21 && c != '\"';
+    return static_cast<unsigned char>(c) >= 0x21 && c != '\"';
   }
 
   bool strong_;
-- 
2.43.0


From 86cbdc7b28c29f13510c615d06e6094eea5bc2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:08 +0000
Subject: [PATCH 23/25] fix: keep the TLS stream alive while an idle ping of an
 ended websocket session is being sent

---
 include/fitoria/core/net.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/core/net.hpp b/include/fitoria/core/net.hpp
index 66acb6d..796380a 100644
--- a/include/fitoria/core/net.hpp
+++ b/include/fitoria/core/net.hpp
@@ -274,20 +274,24 @@ public:
                                     std::forward<HandshakeHandler>(handler));
   }
 
+  // websocket may still be sending an idle ping when its session has ended, the
+  // stream has to stay alive until then
   template <typename ConstBufferSequence, typename WriteHandler>
   auto async_write_some(const ConstBufferSequence& buffers,
                         WriteHandler&& handler)
   {
-    return stream_->async_write_some(buffers,
-                                     std::forward<WriteHandler>(handler));
+    return stream_->async_write_some(
+        buffers,
+        boost::asio::consign(std::forward<WriteHandler>(handler), stream_));
   }
 
   template <typename MutableBufferSequence, typename ReadHandler>
   auto async_read_some(const MutableBufferSequence& buffers,
                        ReadHandler&& handler)
   {
-    return stream_->async_read_some(buffers,
-                                    std::forward<ReadHandler>(handler));
+    return stream_->async_read_some(
+        buffers,
+        boost::asio::consign(std::forward<ReadHandler>(handler), stream_));
   }
 
   template <class ShutdownHandler>
-- 
2.43.0


From 40235c63d37b8def9de4712c9f971029843d5be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:08 +0000
Subject: [PATCH 24/25] fix: take a static file's modification time from the
 opened file, not from its path

---
 include/fitoria/web/static_file.hpp | 31 ++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/web/static_file.hpp b/include/fitoria/web/static_file.hpp
index 7297fda..02e92eb 100644
--- a/include/fitoria/web/static_file.hpp
+++ b/include/fitoria/web/static_file.hpp
@@ -23,6 +23,11 @@
 
 #include <filesystem>
 
+#if !defined(FITORIA_TARGET_WINDOWS)
+#include <cerrno>
+#include <sys/stat.h>
+#endif
+
 FITORIA_NAMESPACE_BEGIN
 
 namespace web {
@@ -139,7 +144,7 @@ public:
       return unexpected { file.error() };
     }
 
-    auto lmd = get_last_modified_time(path);
+    auto lmd = get_last_modified_time(*file, path);
     if (!lmd) {
       return unexpected { lmd.error() };
     }
@@ -177,7 +182,7 @@ public:
       return unexpected { file.error() };
     }
 
-    auto lmd = get_last_modified_time(path);
+    auto lmd = get_last_modified_time(*file, path);
     if (!lmd) {
       return unexpected { lmd.error() };
     }
@@ -331,16 +336,36 @@ private:
     return file;
   }
 
-  static auto get_last_modified_time(const std::string& path)
+  // asks the file being served, whatever its path refers to by now
+  static auto
+  get_last_modified_time([[maybe_unused]] stream_file& file,
+                         [[maybe_unused]] const std::string& path)
       -> expected<std::chrono::time_point<std::chrono::file_clock>,
                   std::error_code>
   {
+#if defined(FITORIA_TARGET_WINDOWS)
     std::error_code ec;
     if (auto time = std::filesystem::last_write_time(path, ec); !ec) {
       return time;
     }
 
     return unexpected { ec };
+#else
+    struct ::stat st { };
+    if (::fstat(file.native_handle(), &st) != 0) {
+      return unexpected { std::error_code(errno, std::system_category()) };
+    }
+
+#if defined(__APPLE__)
+    const auto& mtime = st.st_mtimespec;
+#else
+    const auto& mtime = st.st_mtim;
+#endif
+    return chrono::from_utc(chrono::utc_clock::time_point(
+        std::chrono::duration_cast<chrono::utc_clock::duration>(
+            std::chrono::seconds(mtime.tv_sec)
+            + std::chrono::nanoseconds(mtime.tv_nsec))));
+#endif
   }
 
   static auto get_etag(const std::uint64_t size,
-- 
2.43.0


From 52724605ba34d28508e45366ebc5d9816b814701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 25/25] fix: send the header fields of an accepted upgrade's
 response even if it has no body

---
 include/fitoria/web/websocket.hpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index 4d661a1..d7728ed 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -459,21 +459,28 @@ private:
     namespace ws = boost::beast::websocket;
 
     auto res = impl_->release_response();
+    auto body = std::string();
     if (!std::holds_alternative<any_body::null>(res.body().size())) {
-      auto body
+      if (auto result
           = co_await async_read_until_eof<std::string>(res.body().stream());
-      if (!body) {
-        co_return unexpected { body.error() };
+          result) {
+        body = std::move(*result);
+      } else {
+        co_return unexpected { result.error() };
       }
-      impl_->set_option(ws::stream_base::decorator(
-          [&res, body = std::move(body)](ws::response_type& r) {
-            for (auto& field : res.headers()) {
-              r.set(field.name_string(), field.value());
-            }
-            r.body() = std::move(*body);
-          }));
     }
 
+    impl_->set_option(ws::stream_base::decorator(
+        [&res, body = std::move(body)](ws::response_type& r) {
+          for (auto& field : res.headers()) {
+            r.erase(field.name_string());
+          }
+          for (auto& field : res.headers()) {
+            r.insert(field.name_string(), field.value());
+          }
+          r.body() = body;
+        }));
+
     if (auto result = co_await impl_->async_accept(req); !result) {
       co_return unexpected { result.error() };
     }
-- 
2.43.0

