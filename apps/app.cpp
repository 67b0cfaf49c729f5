// The application server: no routes of its own, other units add theirs.
#include "../sim/app_app.hpp"
#include "server.hpp"
#include <fitoria/web.hpp>
#include <thread>

namespace sim {
namespace app {
void start_logging(int mode);
void stop_logging();
}
namespace {
namespace net = fitoria::net;
struct App final : HttpApp {
  std::unique_ptr<net::io_context> ioc;
  std::unique_ptr<fitoria::web::http_server> server;
  App()
      : ioc(std::make_unique<net::io_context>())
  {
    if (app_config.logging) {
      app::start_logging(app_config.logging);
    }
    auto b = fitoria::web::http_server::builder(*ioc);
    b.set_request_timeout(fitoria::nullopt);
    b.set_request_header_limit(65536u);
    b.set_request_body_limit(static_cast<std::uint64_t>(app_config.body_limit));
    b.set_exception_handler([](std::exception_ptr p) {
      if (p) {
        ++http_world.exceptions;
        try {
          std::rethrow_exception(p);
        } catch (const std::exception& e) {
          http_world.exception_texts.push_back(e.what());
          trace("exception handler: %s", e.what());
        } catch (...) {
        }
      }
    });
    for (auto add : app::route_adders()) {
      add(b);
    }
    server.reset(new fitoria::web::http_server(b.build()));
  }
  ~App() override
  {
    server.reset();
    ioc.reset();
    if (app_config.logging) {
      app::stop_logging();
    }
  }
  bool bind(std::uint16_t port, const std::string&) override { return server->bind("127.0.0.1", port).has_value(); }
  void run() override
  {
    std::vector<std::thread> ts;
    for (int i = 1; i < app_config.threads; ++i) {
      ts.emplace_back([&] { ioc->run(); });
    }
    ioc->run();
    for (auto& t : ts) {
      t.join();
    }
  }
  void stop() override { ioc->stop(); }
};
}
[[maybe_unused]] const bool registered = (app_factory = []() -> std::unique_ptr<HttpApp> { return std::make_unique<App>(); }, true);
}
