// Shared by the units that add application routes.
#pragma once
#include "../sim/app_app.hpp"
#include "server.hpp"
#include <fitoria/web.hpp>

namespace sim::app {
namespace f = fitoria;
namespace w = fitoria::web;
namespace net = fitoria::net;
using f::awaitable;

struct Live {
  Live() { ++app_world.live; }
  Live(const Live&) = delete;
  ~Live() { --app_world.live; }
};
inline std::string q(const w::request& req, std::string_view k, std::string def = "")
{
  auto v = req.query().get(k);
  return v ? std::string(*v) : def;
}
inline long qnum(const w::request& req, std::string_view k, long def)
{
  auto v = req.query().get(k);
  return v ? std::stol(std::string(*v)) : def;
}
inline awaitable<void> pause(std::chrono::milliseconds d)
{
  auto timer = net::steady_timer(co_await net::this_coro::executor);
  timer.expires_after(d);
  (void)co_await timer.async_wait(f::use_awaitable);
}
inline AppObs& observe(const char* route, const std::string& rid)
{
  auto& o = app_world.add(rid, route);
  trace("handler %s r=%s", route, rid.c_str());
  return o;
}
inline std::string as_text(const f::bytes& b) { return std::string(reinterpret_cast<const char*>(b.data()), b.size()); }

// registers its routes when the server is built
struct Adder {
  Adder(RouteAdder a) { route_adders().push_back(a); }
};
}
