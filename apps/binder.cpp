// A server that is bound to any number of endpoints.
#define FITORIA_HAS_OPENSSL
#include "../sim/app_bind.hpp"
#include "../sim/harness.hpp"
#include "../sim/tls_cert.hpp"
#include <fitoria/web.hpp>
#include <thread>

namespace sim {
namespace {
namespace f = fitoria;
namespace w = fitoria::web;
namespace net = fitoria::net;

struct Live {
  Live() { ++bind_world.live; }
  Live(const Live&) = delete;
  ~Live() { --bind_world.live; }
};

w::http_server build(net::io_context& ioc, const BindConfig& c)
{
  auto b = w::http_server::builder(ioc);
  if (c.backlog >= 0) {
    b.set_max_listen_connections(c.backlog);
  }
  b.set_request_timeout(f::nullopt);
  b.set_tls_handshake_timeout(f::nullopt);
  b.set_exception_handler([](std::exception_ptr p) {
    try {
      if (p) {
        std::rethrow_exception(p);
      }
    } catch (const std::exception& e) {
      bind_world.exceptions.push_back(e.what());
    } catch (...) {
      bind_world.exceptions.push_back("something else");
    }
  });
  b.serve(w::route::get<"/who">([](const w::connect_info& ci) -> f::awaitable<std::string> {
    Live l;
    co_return ci.local() + "|" + ci.remote();
  }));
  b.serve(w::route::post<"/echo">([](std::string body) -> f::awaitable<std::string> {
    Live l;
    co_return body;
  }));
  return b.build();
}

struct App final : BindApp {
  BindConfig cfg;
  net::ssl::context ctx { net::ssl::context::tls_server };
  std::unique_ptr<net::io_context> ioc;
  std::unique_ptr<w::http_server> server;
  explicit App(const BindConfig& c)
      : cfg(c)
      , ioc(std::make_unique<net::io_context>())
      , server(new w::http_server(build(*ioc, c)))
  {
    ctx.use_certificate_chain(net::buffer(tls_cert, sizeof tls_cert - 1));
    ctx.use_private_key(net::buffer(tls_key, sizeof tls_key - 1), net::ssl::context::pem);
  }
  ~App() override
  {
    server.reset();
    ioc.reset();
  }
  BindResult bind(BindKind kind, const std::string& addr, std::uint16_t port) override
  {
    BindResult r;
    auto take = [&](const f::expected<const w::http_server&, std::error_code>& e) {
      r.ok = e.has_value();
      if (r.ok) {
        r.self = &*e == server.get();
      } else {
        r.error = e.error().default_error_condition().value();
        r.text = e.error().message();
      }
    };
    try {
      switch (kind) {
      case BindKind::tcp: take(server->bind(addr, port)); break;
      case BindKind::tls: take(server->bind(addr, port, ctx)); break;
      case BindKind::local: take(server->bind_local(addr)); break;
      case BindKind::tls_local: take(server->bind_local(addr, ctx)); break;
      }
    } catch (const std::exception& e) {
      r.threw = std::string("exception: ") + e.what();
    }
    return r;
  }
  int max_listen_connections() override { return server->max_listen_connections(); }
  void run() override
  {
    auto guard = net::make_work_guard(*ioc); // even if nothing is bound yet
    std::vector<std::thread> ts;
    for (int i = 1; i < cfg.threads; ++i) {
      ts.emplace_back([&] { ioc->run(); });
    }
    ioc->run();
    for (auto& t : ts) {
      t.join();
    }
  }
  void stop() override { ioc->stop(); }
};
[[maybe_unused]] const bool registered = (bind_factory = [](const BindConfig& c) -> std::unique_ptr<BindApp> { return std::make_unique<App>(c); }, true);
}
}
