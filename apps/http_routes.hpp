// The server under test: real fitoria http_server with a small set of routes
// that together use every way of reading a request and writing a response.
#pragma once
#include "../sim/app_http.hpp"
#include "../sim/harness.hpp"
#include "server.hpp"
#include <fitoria/web.hpp>
#include <list>
#include <thread>

namespace sim::app {
namespace f = fitoria;
namespace w = fitoria::web;
namespace net = fitoria::net;
using f::awaitable;

inline std::string str(std::string_view s) { return std::string(s); }

struct Scope {
  Obs* o;
  Scope(const char* route, w::request& req)
  {
    http_world.obs.push_back(std::make_unique<Obs>());
    o = http_world.obs.back().get();
    o->route = route;
    o->t_begin = now();
    o->method = std::string(boost::beast::http::to_string(req.method()));
    o->remote = req.connection().remote();
    o->path = req.path().match_path();
    for (auto [k, v] : req.path()) {
      o->params.emplace_back(k, v);
    }
    for (auto [k, v] : req.query()) {
      o->query.emplace_back(k, v);
      if (k == "r") {
        o->rid = v;
      }
    }
    for (auto& h : req.headers()) {
      o->headers.emplace_back(std::string(h.name_string()), std::string(h.value()));
    }
    ++http_world.live_handlers;
    trace("handler %s r=%s begins", route, o->rid.c_str());
  }
  Scope(const Scope&) = delete;
  ~Scope()
  {
    o->t_end = now();
    --http_world.live_handlers;
    trace("handler %s r=%s ends", o->route.c_str(), o->rid.c_str());
  }
  void body(bool ok, std::string b, std::string err = "")
  {
    o->has_body = true;
    o->body_ok = ok;
    o->body = std::move(b);
    o->body_error = std::move(err);
  }
};

inline std::string text(const f::bytes& b) { return std::string(reinterpret_cast<const char*>(b.data()), b.size()); }

// errors a body can fail with, none of which is the end of a body
inline std::error_code body_error(long k)
{
  switch (k % 6) {
  case 1: return make_error_code(net::error::eof);
  case 2: return make_error_code(std::errc::connection_reset);
  case 3: return make_error_code(net::error::operation_aborted);
  case 4: return make_error_code(boost::beast::http::error::end_of_stream);
  case 5: return make_error_code(std::errc::timed_out);
  default: return make_error_code(std::errc::io_error);
  }
}

// response body stream: `pieces` with optional timer waits, optional failure
class gen_stream {
public:
  using is_async_readable_stream = void;
  struct count {
    count() { ++http_world.live_streams; }
    ~count() { --http_world.live_streams; }
  };
  gen_stream(Obs* o, std::string data, std::vector<std::size_t> pieces, long fail_at, int delay_ms)
      : o_(o)
      , count_(std::make_shared<count>())
      , data_(std::move(data))
      , pieces_(std::move(pieces))
      , fail_at_(fail_at)
      , delay_ms_(delay_ms)
  {
  }
  auto async_read_some() -> awaitable<f::optional<f::expected<f::bytes, std::error_code>>>
  {
    if (delay_ms_) {
      auto timer = net::steady_timer(co_await net::this_coro::executor);
      timer.expires_after(std::chrono::milliseconds(delay_ms_));
      (void)co_await timer.async_wait(f::use_awaitable);
    }
    if (fail_at_ >= 0 && static_cast<long>(i_) == fail_at_) {
      o_->stream_failed = true;
      co_return f::unexpected { body_error(fail_at_ + static_cast<long>(data_.size())) };
    }
    if (i_ == pieces_.size()) {
      co_return f::nullopt;
    }
    auto n = pieces_[i_++];
    f::bytes b(n);
    if (n) {
      memcpy(b.data(), data_.data() + pos_, n);
    }
    pos_ += n;
    co_return b;
  }

private:
  Obs* o_;
  std::shared_ptr<count> count_;
  std::string data_;
  std::vector<std::size_t> pieces_;
  std::size_t i_ = 0, pos_ = 0;
  long fail_at_;
  int delay_ms_;
};

inline long qnum(const w::request& req, std::string_view k, long def)
{
  if (auto v = req.query().get(k); v) {
    return std::stol(std::string(*v));
  }
  return def;
}
inline w::response_builder ok(const Scope& s)
{
  auto b = w::response::ok();
  b.set_header("X-R", s.o->rid);
  return b;
}

inline auto h_id(w::request& req) -> awaitable<w::response>
{
  Scope s("id", req);
  std::string out = "id";
  for (auto& [k, v] : s.o->params) {
    out += "|" + k + "=" + v;
  }
  if (auto v = req.query().get("x"); v) {
    out += "|x=" + std::string(*v);
  }
  if (auto v = req.headers().get("X-K"); v) {
    out += "|k=" + std::string(*v);
  }
  co_return ok(s).set_header(f::http::field::content_type, "text/plain").set_body(out);
}

inline auto read_all(w::request& req, Scope& s) -> awaitable<f::expected<std::string, std::error_code>>
{
  auto r = co_await w::async_read_until_eof<std::string>(req.body());
  if (r) {
    s.body(true, *r);
    co_return *r;
  }
  s.body(false, "", r.error().message());
  co_return f::unexpected { r.error() };
}

// body through the std::string extractor
inline auto h_echo(w::request& req, std::string body) -> awaitable<w::response>
{
  Scope s("echo", req);
  s.body(true, body);
  co_return ok(s).set_header(f::http::field::content_type, "text/plain").set_body(body);
}
// body through the vector extractor
inline auto h_len(w::request& req, std::vector<std::byte> body) -> awaitable<w::response>
{
  Scope s("len", req);
  s.body(true, std::string(reinterpret_cast<const char*>(body.data()), body.size()));
  co_return ok(s).set_body("len:" + std::to_string(body.size()) + ":" + std::to_string(hash_bytes(s.o->body)));
}
// body read by hand, piece by piece
inline auto h_pieces(w::request& req) -> awaitable<w::response>
{
  Scope s("pieces", req);
  std::string all;
  for (;;) {
    auto d = co_await req.body().async_read_some();
    if (!d) {
      break;
    }
    if (!*d) {
      s.body(false, all, (*d).error().message());
      co_return w::response::internal_server_error().set_header("X-R", s.o->rid).set_body("body error");
    }
    all += text(**d);
  }
  s.body(true, all);
  co_return ok(s).set_body("len:" + std::to_string(all.size()) + ":" + std::to_string(hash_bytes(all)));
}
inline auto h_noread(w::request& req) -> awaitable<w::response>
{
  Scope s("noread", req);
  co_return ok(s).set_body("noread");
}
inline auto h_echostream(w::request& req) -> awaitable<w::response>
{
  Scope s("echostream", req);
  co_return ok(s).set_stream_body(std::move(req.body()));
}
inline auto h_gen(w::request& req) -> awaitable<w::response>
{
  Scope s("gen", req);
  auto key = static_cast<std::uint64_t>(qnum(req, "k", 0));
  auto n = static_cast<std::size_t>(qnum(req, "n", 0));
  auto mode = req.query().get("m").value_or("sized");
  auto data = blob(key, n);
  auto pieces = gen_pieces(key, n, qnum(req, "e", 0) != 0);
  auto fail = qnum(req, "f", -1);
  auto delay = static_cast<int>(qnum(req, "d", 0));
  // h=0: a response without any header of its own
  auto start = [&] {
    auto b = qnum(req, "h", 1) ? ok(s) : w::response::ok();
    if (auto v = req.query().get("v"); v) {
      b.set_header("X-V", "overwritten");
      b.set_header("x-v", *v);
      b.insert_header("X-W", *v + "1");
      b.insert_header("X-W", *v + "2");
    }
    return b;
  };
  if (mode == "sized") {
    co_return start().set_body(std::as_bytes(std::span(data.data(), data.size())));
  }
  if (mode == "stream") {
    co_return start().set_body(gen_stream(s.o, data, pieces, fail, delay));
  }
  if (mode == "chunked") {
    co_return start().set_stream_body(gen_stream(s.o, data, pieces, fail, delay));
  }
  auto b = start();
  b.set_status(f::http::status_code(static_cast<int>(n)));
  co_return b.set_body();
}
inline auto h_any(w::request& req) -> awaitable<w::response>
{
  Scope s("any", req);
  auto r = co_await read_all(req, s);
  co_return ok(s).set_body("any|" + s.o->method + "|" + (r ? std::to_string(hash_bytes(*r)) : "error"));
}
inline auto h_throw(w::request& req) -> awaitable<w::response>
{
  Scope s("throw", req);
  if (qnum(req, "d", 0)) {
    auto timer = net::steady_timer(co_await net::this_coro::executor);
    timer.expires_after(std::chrono::milliseconds(1));
    (void)co_await timer.async_wait(f::use_awaitable);
  }
  if (qnum(req, "t", 0)) {
    s.o->threw = "something else";
    throw 42;
  }
  s.o->threw = "handler " + s.o->rid;
  throw std::runtime_error(s.o->threw);
}
inline auto h_slow(w::request& req) -> awaitable<w::response>
{
  Scope s("slow", req);
  auto timer = net::steady_timer(co_await net::this_coro::executor);
  timer.expires_after(std::chrono::milliseconds(qnum(req, "d", 0)));
  (void)co_await timer.async_wait(f::use_awaitable);
  co_return ok(s).set_body("slow");
}

inline w::http_server build_server(net::io_context& ioc, const HttpConfig& cfg)
{
  auto b = w::http_server::builder(ioc);
  auto dur = [](ns_t t) -> f::optional<std::chrono::steady_clock::duration> {
    if (t < 0) {
      return f::nullopt;
    }
    return std::chrono::steady_clock::duration(std::chrono::nanoseconds(t));
  };
  if (!cfg.defaults) {
    b.set_request_timeout(dur(cfg.request_timeout));
    b.set_tls_handshake_timeout(dur(cfg.tls_timeout));
    if (cfg.header_limit < 0) {
      b.set_request_header_limit(f::nullopt);
    } else {
      b.set_request_header_limit(static_cast<std::uint32_t>(cfg.header_limit));
    }
    if (cfg.body_limit < 0) {
      b.set_request_body_limit(f::nullopt);
    } else {
      b.set_request_body_limit(static_cast<std::uint64_t>(cfg.body_limit));
    }
  }
  if (!cfg.default_handler) {
    b.set_exception_handler([](std::exception_ptr p) {
      if (p) {
        ++http_world.exceptions;
        try {
          std::rethrow_exception(p);
        } catch (const std::exception& e) {
          http_world.exception_texts.push_back(e.what());
        } catch (...) {
          http_world.exception_texts.push_back("something else");
        }
        trace("exception handler: %s", http_world.exception_texts.back().c_str());
      }
    });
  }
  b.serve(w::route::get<"/id/{a}/{b}">(h_id));
  b.serve(w::route::post<"/echo">(h_echo));
  b.serve(w::route::post<"/len">(h_len));
  b.serve(w::route::post<"/pieces">(h_pieces));
  b.serve(w::route::post<"/noread">(h_noread));
  b.serve(w::route::post<"/echostream">(h_echostream));
  b.serve(w::route::get<"/gen">(h_gen));
  b.serve(w::route::head<"/gen">(h_gen));
  b.serve(w::route::any<"/any">(h_any));
  b.serve(w::route::get<"/throw">(h_throw));
  b.serve(w::route::get<"/slow">(h_slow));
  for (auto add : route_adders()) {
    add(b);
  }
  return b.build();
}

inline void run_threads(net::io_context& ioc, int n)
{
  std::vector<std::thread> ts;
  for (int i = 1; i < n; ++i) {
    ts.emplace_back([&] { ioc.run(); });
  }
  ioc.run();
  for (auto& t : ts) {
    t.join();
  }
}

} // namespace sim::app
