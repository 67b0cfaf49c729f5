// Middlewares, scopes and states.
#include "app_common.hpp"
#include <fitoria/web/middleware/exception_handler.hpp>

namespace sim::app {
namespace {
std::vector<std::string>& trail(const std::string& rid) { return app_world.events[rid]; }

// what this request wants middleware `name` to do: query d=A:block,B:throw
std::string wanted(const w::request& req, const std::string& name)
{
  auto d = "," + q(req, "d") + ",";
  auto p = d.find("," + name + ":");
  if (p == std::string::npos) {
    return "";
  }
  p += name.size() + 2;
  return d.substr(p, d.find(',', p) - p);
}

template <typename Request, typename Response, typename Next>
class mark_middleware {
  friend class mark;

public:
  auto operator()(Request req) const -> Response
  {
    Live live;
    auto rid = q(req, "r");
    auto what = wanted(req, name_);
    trail(rid).push_back(name_ + ">");
    if (what == "block") {
      co_return w::response::forbidden().set_header("X-R", rid).set_body("blocked by " + name_);
    }
    if (what == "throw") {
      throw std::runtime_error("middleware " + name_);
    }
    if (what == "throwint") {
      throw 42;
    }
    if (what == "delay") {
      co_await pause(std::chrono::milliseconds(3));
    }
    if (what == "header") {
      auto b = req.builder();
      b.insert_header("X-Mod", name_);
      req = b.build();
    }
    if (what == "query") {
      auto b = req.builder();
      b.set_query("added", name_);
      req = b.build();
    }
    if (what == "body") {
      req = req.builder().set_body(std::string_view("replaced by " + name_));
    }
    if (what == "bytes") {
      auto s = "replaced by " + name_;
      req = req.builder().set_body(std::as_bytes(std::span(s.data(), s.size())));
    }
    if (what == "json") {
      req = req.builder().set_json(boost::json::value { { "by", name_ } });
    }
    auto res = co_await next_(req);
    if (what == "delayafter") {
      co_await pause(std::chrono::milliseconds(3));
    }
    if (what == "throwafter") {
      throw std::logic_error("middleware " + name_);
    }
    trail(rid).push_back(name_ + "<" + std::to_string(static_cast<int>(res.status().value())));
    if (what == "respond") {
      auto b = res.builder();
      b.insert_header("X-Res", name_);
      co_return b.build();
    }
    if (what == "replace") {
      co_return w::response::accepted().set_header("X-R", rid).set_body("instead by " + name_);
    }
    co_return res;
  }

private:
  template <typename Next2>
  mark_middleware(std::string name, Next2&& next)
      : name_(std::move(name))
      , next_(std::forward<Next2>(next))
  {
  }
  std::string name_;
  Next next_;
};

class mark {
public:
  mark(std::string name)
      : name_(std::move(name))
  {
  }
  template <typename Request, typename Response, f::decay_to<mark> Self, typename Next>
  friend auto tag_invoke(w::to_middleware_t<Request, Response>, Self&& self, Next&& next)
  {
    return mark_middleware<Request, Response, std::decay_t<Next>>(self.name_, std::forward<Next>(next));
  }

private:
  std::string name_;
};

struct SA {
  int v;
};
struct SB {
  int v;
};
struct SC {
  int v;
};
struct Counter {
  int n = 0;
};

awaitable<w::response> h_mw(w::request& req)
{
  Live live;
  auto rid = q(req, "r");
  auto& o = observe("mw", rid);
  trail(rid).push_back("h");
  auto what = wanted(req, "h");
  if (what == "throw") {
    throw std::runtime_error("handler");
  }
  if (what == "throwint") {
    throw 42;
  }
  if (what == "delay") {
    co_await pause(std::chrono::milliseconds(2));
  }
  auto [b, e] = req.headers().equal_range("X-Mod");
  for (; b != e; ++b) {
    o.kv.emplace_back("mod", std::string(b->value()));
  }
  if (auto k = req.headers().get("X-Keep"); k) {
    o.kv.emplace_back("keep", std::string(*k));
  }
  if (auto k = req.query().get("added"); k) {
    o.kv.emplace_back("added", *k);
  }
  if (auto k = req.query().get("plain"); k) {
    o.kv.emplace_back("plain", *k);
  }
  if (auto k = req.path().get("p"); k) {
    o.kv.emplace_back("p", *k);
  }
  o.kv.emplace_back("path", req.path().match_path());
  o.kv.emplace_back("method", std::string(boost::beast::http::to_string(req.method())));
  o.kv.emplace_back("version", req.version() == f::http::version::v1_1 ? "1.1" : "other");
  if (auto s = req.state<SA>(); s) {
    o.kv.emplace_back("sa", std::to_string(s->v));
  }
  o.has_body = true;
  if (auto r = co_await w::async_read_until_eof<std::string>(req.body()); r) {
    o.body_ok = true;
    o.body = *r;
  }
  co_return w::response::ok().set_header("X-R", rid).set_body("mw|" + o.body);
}

awaitable<w::response> h_state(w::request& req)
{
  Live live;
  auto rid = q(req, "r");
  auto& o = observe("state", rid);
  auto sa = req.state<SA>();
  auto sb = req.state<SB>();
  auto sc = req.state<SC>();
  o.value = (sa ? std::to_string(sa->v) : "-") + "," + (sb ? std::to_string(sb->v) : "-") + "," + (sc ? std::to_string(sc->v) : "-");
  if (auto c = req.state<Counter>(); c) {
    o.kv.emplace_back("n", std::to_string(++c->n));
  }
  co_return w::response::ok().set_header("X-R", rid).set_body("st|" + o.value);
}
awaitable<w::response> h_state_of(w::request& req, w::state_of<SA> sa)
{
  Live live;
  auto rid = q(req, "r");
  auto& o = observe("state_of", rid);
  o.value = std::to_string(sa.v);
  co_return w::response::ok().set_header("X-R", rid).set_body("st|" + o.value);
}

const Adder adder([](w::http_server::builder& b) {
  using w::middleware::exception_handler;
  b.serve(w::scope<"/m1">()
              .use(mark("A"))
              .use(mark("B"))
              .serve(w::route::any<"/x/{p}">(h_mw).use(mark("C")).use(mark("D")))
              .serve(w::route::any<"/y">(h_mw)));
  b.serve(w::scope<"/m2">()
              .use(mark("A"))
              .use(exception_handler())
              .use(mark("B"))
              .use_state(SA { 7 })
              .serve(w::scope<"/n">()
                         .use(mark("C"))
                         .serve(w::route::any<"/x/{p}">(h_mw).use(mark("D")))
                         .serve(w::scope<"/k">().use(mark("E")).serve(w::route::any<"/x">(h_mw))))
              .serve(w::route::any<"/x">(h_mw)));
  b.serve(w::route::any<"/m3/x">(h_mw).use(mark("A")).use(exception_handler()));
  b.serve(w::scope().use(exception_handler()).use(mark("A")).serve(w::scope<"/m4">().use(exception_handler()).serve(w::route::any<"/x">(h_mw).use(mark("B")))));

  // states: the nearest one wins; what one route or scope sets is not seen by its siblings
  b.serve(w::scope<"/st">()
              .use_state(SA { 1 })
              .use_state(SB { 1 })
              .use_state(Counter {})
              .serve(w::route::get<"/r0">(h_state))
              .serve(w::route::get<"/r1">(h_state).use_state(SA { 2 }))
              .serve(w::route::get<"/of">(h_state_of))
              .serve(w::route::get<"/of1">(h_state_of).use_state(SA { 9 }))
              .serve(w::scope<"/in">()
                         .use_state(SB { 3 })
                         .use_state(SC { 3 })
                         .serve(w::route::get<"/r2">(h_state).use_state(SA { 4 }))
                         .serve(w::route::get<"/r3">(h_state)))
              .serve(w::scope<"/bare">().serve(w::route::get<"/r4">(h_state)).serve(w::route::get<"/r5">(h_state).use_state(SC { 5 })))
              .use_state(SC { 11 }) // for what is served from here on; what was set before stays the same instance
              .serve(w::route::get<"/r6">(h_state)));
  b.serve(w::route::get<"/st0">(h_state));
  b.serve(w::route::get<"/st0of">(h_state_of));
  // builders are values: deriving one from another leaves the other alone
  auto base = w::scope<"/sx">().use_state(SA { 1 });
  auto s1 = base.use_state(SA { 2 }).serve(w::route::get<"/a">(h_state));
  auto s2 = base.serve(w::route::get<"/b">(h_state));
  b.serve(s1);
  b.serve(s2);
  auto r = w::route::get<"/q">(h_state).use_state(SA { 5 });
  auto r1 = r.use_state(SA { 6 });
  auto r2 = r.use_state(SB { 8 });
  b.serve(w::scope<"/p1">().serve(r1));
  b.serve(w::scope<"/p2">().serve(r));
  b.serve(w::scope<"/p3">().serve(r2));
});
}
}
