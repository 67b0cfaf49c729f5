// Routes registered in an order and selection drawn by the run.
#include "app_common.hpp"

namespace sim::app {
namespace {
awaitable<w::response> answer(w::request& req, int pattern, int verb)
{
  Live live;
  auto rid = q(req, "r");
  auto& o = observe("rt", rid);
  o.value = std::to_string(pattern) + "." + std::to_string(verb);
  for (auto& [k, v] : req.path()) {
    o.kv.emplace_back(k, v);
  }
  o.err = req.path().match_pattern();
  co_return w::response::ok().set_header("X-R", rid).set_body("rt|" + o.value);
}
f::http::verb verb_of(int v)
{
  static const f::http::verb vs[] = { f::http::verb::unknown, f::http::verb::get, f::http::verb::post, f::http::verb::put, f::http::verb::delete_, f::http::verb::patch };
  return vs[v];
}
struct H {
  int pattern, verb;
  auto operator()(w::request& req) const -> awaitable<w::response> { return answer(req, pattern, verb); }
};
using Serve = void (*)(w::http_server::builder&, int);
#define R(i, p) [](w::http_server::builder& b, int v) { b.serve(w::route::handle<p>(verb_of(v), H { i, v })); }
const Serve serve[] = {
  R(0, "/rt"), R(1, "/rt/"), R(2, "/rt/a"), R(3, "/rt/ab"), R(4, "/rt/abc"), R(5, "/rt/abd"), R(6, "/rt/b"), R(7, "/rt/a/"), R(8, "/rt/a/b"), R(9, "/rt/ab/c"),
  R(10, "/rt/{p}"), R(11, "/rt/{p}/"), R(12, "/rt/{p}/b"), R(13, "/rt/a/{q}"), R(14, "/rt/ab/{q}"), R(15, "/rt/{p}/{q}"), R(16, "/rt/a/{q}/c"), R(17, "/rt/{p}/b/c"),
  R(18, "/rt/#rest"), R(19, "/rt/a/#rest"), R(20, "/rt/{p}/#rest"), R(21, "/rt/ab#rest"),
  R(22, "/rt/a.c"), R(23, "/rt/a+b"), R(24, "/rt/(x)"), R(25, "/rt/a*"), R(26, "/rt/x$y"), R(27, "/rt/login"), R(28, "/rt/logout"), R(29, "/rt/log"),
  R(30, "/rt/a.c/{q}"), R(31, "/rt/(x)/{q}"), R(32, "/rt/a+b/{q}"), R(33, "/rt/x$y/{q}/a*"), R(34, "/rt/a.c/#rest"), R(35, "/rt/log/{q}"), R(36, "/rt/{q}/x/{p}"), R(37, "/rt/{p}/b/{q}/c"), R(38, "/rt/{one}/{two}/{three}/{four}"), R(39, "/rt/a/b/c/d/e"), R(40, "/rt/a/b/{x}/d/e"), R(41, "/rt/~-_!,;=:@"),
};
static_assert(sizeof serve / sizeof *serve == n_route_patterns);
const Adder adder([](w::http_server::builder& b) {
  for (std::size_t i = 0; i < app_config.routes.size(); ++i) {
    auto& r = app_config.routes[i];
    try {
      serve[r.pattern](b, r.verb);
    } catch (const std::exception&) {
      app_config.failed_routes.push_back(static_cast<int>(i));
    }
  }
});
}
}
