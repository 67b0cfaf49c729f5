#include "http_routes.hpp"

namespace sim {
namespace {
struct App final : HttpApp {
  HttpConfig cfg;
  std::unique_ptr<fitoria::net::io_context> ioc;
  std::unique_ptr<fitoria::web::http_server> server;
  explicit App(const HttpConfig& c)
      : cfg(c)
      , ioc(std::make_unique<fitoria::net::io_context>())
      , server(new fitoria::web::http_server(app::build_server(*ioc, c)))
  {
  }
  ~App() override
  {
    server.reset();
    ioc.reset();
  }
  bool bind(std::uint16_t port, const std::string& path) override
  {
    return cfg.transport == HttpConfig::local ? server->bind_local(path).has_value() : server->bind("127.0.0.1", port).has_value();
  }
  void run() override { app::run_threads(*ioc, cfg.threads); }
  void stop() override { ioc->stop(); }
};
}
[[maybe_unused]] const bool registered = (http_factory = [](const HttpConfig& c) -> std::unique_ptr<HttpApp> { return std::make_unique<App>(c); }, true);
}
