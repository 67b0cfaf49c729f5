// WebSocket routes of the server under test.
#include "server.hpp"
#include "../sim/app_ws.hpp"
#include <fitoria/web.hpp>

namespace sim::app {
namespace {
namespace f = fitoria;
namespace w = fitoria::web;
namespace net = fitoria::net;
using f::awaitable;

struct WsScope {
  std::shared_ptr<bool> dummy;
  WsObs* o;
  WsScope(const std::string& rid, const char* route)
  {
    ws_world.obs.push_back(std::make_unique<WsObs>());
    o = ws_world.obs.back().get();
    o->rid = rid;
    o->route = route;
    o->t_begin = o->t_read = now();
    ++ws_world.live;
    trace("ws %s r=%s begins", route, rid.c_str());
  }
  WsScope(const WsScope&) = delete;
  ~WsScope()
  {
    o->t_end = now();
    --ws_world.live;
    trace("ws r=%s ends", o->rid.c_str());
  }
};

WsMsg to_msg(w::websocket::message_type& m)
{
  WsMsg r;
  if (auto* t = std::get_if<w::websocket::text_t>(&m)) {
    r.text = true;
    r.data = t->value;
  } else if (auto* b = std::get_if<w::websocket::binary_t>(&m)) {
    r.data.assign(reinterpret_cast<const char*>(b->value.data()), b->value.size());
  }
  return r;
}

auto write_msg(w::websocket::context& ctx, WsObs& o, const WsMsg& m) -> awaitable<bool>
{
  auto r = m.text ? co_await ctx.async_write_text(m.data) : co_await ctx.async_write_binary(std::span(m.data.data(), m.data.size()));
  if (!r) {
    o.write_error = r.error().message();
    co_return false;
  }
  ++o.wrote;
  co_return true;
}
auto do_close(w::websocket::context& ctx, WsObs& o, int code) -> awaitable<void>
{
  o.closing = true;
  o.t_closing = now();
  auto r = co_await ctx.async_close(static_cast<w::websocket::close_code>(code));
  o.close_ok = r.has_value();
  if (!r) {
    o.close_error = r.error().message();
  }
}
// false at the end of the session
auto read_msg(w::websocket::context& ctx, WsObs& o) -> awaitable<f::optional<WsMsg>>
{
  o.t_read = now();
  auto m = co_await ctx.async_read();
  if (!m) {
    o.read_error = m.error().message();
    o.t_err = now();
    trace("ws r=%s read: %s", o.rid.c_str(), o.read_error.c_str());
    co_return f::nullopt;
  }
  if (std::get_if<w::websocket::close_t>(&*m)) {
    o.close_seen = true;
    o.t_err = now();
    co_return f::nullopt;
  }
  auto r = to_msg(*m);
  o.got.push_back(r);
  co_return r;
}

struct Params {
  std::string rid;
  long n = 0, key = 0, close = 0, delay = 0, ping = 0, sub = 0;
};
long num(const w::request& req, std::string_view k, long def)
{
  if (auto v = req.query().get(k); v) {
    return std::stol(std::string(*v));
  }
  return def;
}
Params params(const w::request& req, w::websocket& ws)
{
  Params p;
  p.rid = std::string(req.query().get("r").value_or(""));
  p.n = num(req, "n", 0);
  p.key = num(req, "k", 0);
  p.close = num(req, "close", 0);
  p.delay = num(req, "d", 0);
  p.ping = num(req, "ping", 0);
  p.sub = num(req, "sub", 0);
  if (auto v = num(req, "idle", 0); v > 0) {
    ws.set_idle_timeout(std::chrono::milliseconds(v));
  } else if (v < 0) {
    ws.set_idle_timeout(f::nullopt);
  }
  if (auto v = num(req, "hs", 0); v > 0) {
    ws.set_handshake_timeout(std::chrono::milliseconds(v));
  }
  if (auto v = num(req, "ka", -1); v >= 0) {
    ws.set_keep_alive_pings(v != 0);
  }
  ++ws_world.handlers;
  return p;
}

// the response to the upgrade is the handler's
w::response dress(w::response r, const Params& p)
{
  auto b = std::move(r).builder().set_header("X-R", p.rid);
  if (p.sub) {
    b.set_header("Sec-WebSocket-Protocol", "p" + std::to_string(p.sub));
    b.insert_header("Set-Cookie", "a=" + p.rid);
    b.insert_header("Set-Cookie", "b=" + p.rid);
  }
  return b.build();
}

auto nap(net::any_io_executor ex, long d) -> awaitable<void>
{
  if (d > 0) {
    auto timer = net::steady_timer(ex);
    timer.expires_after(std::chrono::milliseconds(d));
    (void)co_await timer.async_wait(f::use_awaitable);
  }
}

auto echo(w::request& req, w::websocket ws) -> awaitable<w::response>
{
  auto p = params(req, ws);
  co_return dress(ws.set_handler([p](w::websocket::context& ctx) -> awaitable<void> {
    WsScope s(p.rid, "echo");
    long k = 0;
    while (auto m = co_await read_msg(ctx, *s.o)) {
      if (p.ping && !co_await ctx.async_ping()) {
        break;
      }
      if (!co_await write_msg(ctx, *s.o, *m)) {
        break;
      }
      if (p.n && ++k == p.n) {
        if (p.close) {
          co_await do_close(ctx, *s.o, static_cast<int>(p.close));
        }
        break; // leaves without closing when close is 0
      }
    }
  }), p);
}
auto push(w::request& req, w::websocket ws) -> awaitable<w::response>
{
  auto p = params(req, ws);
  co_return dress(ws.set_handler([p](w::websocket::context& ctx) -> awaitable<void> {
    WsScope s(p.rid, "push");
    for (long i = 0; i < p.n; ++i) {
      co_await nap(ctx.get_executor(), p.delay);
      if (p.ping && !co_await ctx.async_ping()) {
        co_return;
      }
      if (!co_await write_msg(ctx, *s.o, push_msg(static_cast<std::uint64_t>(p.key), static_cast<std::size_t>(i), text_blob, blob))) {
        co_return;
      }
    }
    if (p.close) {
      co_await do_close(ctx, *s.o, static_cast<int>(p.close));
      co_return;
    }
    while (co_await read_msg(ctx, *s.o)) { }
  }), p);
}
auto duplex(w::request& req, w::websocket ws) -> awaitable<w::response>
{
  auto p = params(req, ws);
  co_return dress(ws.set_handler([p](w::websocket::context& ctx) -> awaitable<void> {
    using namespace net::experimental::awaitable_operators;
    WsScope s(p.rid, "duplex");
    auto writer = [&]() -> awaitable<void> {
      for (long i = 0; i < p.n; ++i) {
        co_await nap(ctx.get_executor(), p.delay);
        if (!co_await write_msg(ctx, *s.o, push_msg(static_cast<std::uint64_t>(p.key), static_cast<std::size_t>(i), text_blob, blob))) {
          co_return;
        }
      }
      // the reader decides when the session ends
      auto timer = net::steady_timer(ctx.get_executor());
      timer.expires_at(std::chrono::steady_clock::time_point::max());
      (void)co_await timer.async_wait(f::use_awaitable);
    };
    auto reader = [&]() -> awaitable<void> {
      while (co_await read_msg(ctx, *s.o)) { }
    };
    co_await (reader() || writer());
  }), p);
}
auto thrower(w::request& req, w::websocket ws) -> awaitable<w::response>
{
  auto p = params(req, ws);
  co_return dress(ws.set_handler([p](w::websocket::context& ctx) -> awaitable<void> {
    WsScope s(p.rid, "throw");
    for (long i = 0; i < p.n; ++i) {
      if (!co_await read_msg(ctx, *s.o)) {
        co_return;
      }
    }
    throw std::runtime_error("ws " + p.rid);
  }), p);
}
auto reject(w::request& req, w::websocket ws) -> awaitable<w::response>
{
  auto p = params(req, ws);
  co_return w::response::forbidden().set_header("X-R", p.rid).set_body("no websocket for you");
}
auto late(w::request& req, w::websocket ws) -> awaitable<w::response>
{
  auto p = params(req, ws);
  co_await nap(co_await net::this_coro::executor, p.delay);
  co_return dress(ws.set_handler([p](w::websocket::context& ctx) -> awaitable<void> {
    WsScope s(p.rid, "late");
    while (auto m = co_await read_msg(ctx, *s.o)) {
      if (!co_await write_msg(ctx, *s.o, *m)) {
        break;
      }
    }
  }), p);
}

void add(w::http_server::builder& b)
{
  b.serve(w::route::get<"/ws/echo">(echo));
  b.serve(w::route::get<"/ws/push">(push));
  b.serve(w::route::get<"/ws/duplex">(duplex));
  b.serve(w::route::get<"/ws/throw">(thrower));
  b.serve(w::route::get<"/ws/reject">(reject));
  b.serve(w::route::get<"/ws/late">(late));
}
[[maybe_unused]] const bool registered = (route_adders().push_back(add), true);
} // namespace
} // namespace sim::app
