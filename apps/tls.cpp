#define FITORIA_HAS_OPENSSL
#include "http_routes.hpp"
#include "../sim/tls_cert.hpp"

namespace sim {
namespace {
struct App final : HttpApp {
  HttpConfig cfg;
  fitoria::net::ssl::context ctx { fitoria::net::ssl::context::tls_server };
  std::unique_ptr<fitoria::net::io_context> ioc;
  std::unique_ptr<fitoria::web::http_server> server;
  explicit App(const HttpConfig& c)
      : cfg(c)
      , ioc(std::make_unique<fitoria::net::io_context>())
      , server(new fitoria::web::http_server(app::build_server(*ioc, c)))
  {
    ctx.use_certificate_chain(fitoria::net::buffer(tls_cert, sizeof tls_cert - 1));
    ctx.use_private_key(fitoria::net::buffer(tls_key, sizeof tls_key - 1), fitoria::net::ssl::context::pem);
  }
  ~App() override
  {
    server.reset();
    ioc.reset();
  }
  bool bind(std::uint16_t port, const std::string& path) override
  {
    return cfg.transport == HttpConfig::tls_local ? server->bind_local(path, ctx).has_value() : server->bind("127.0.0.1", port, ctx).has_value();
  }
  void run() override { app::run_threads(*ioc, cfg.threads); }
  void stop() override { ioc->stop(); }
};
[[maybe_unused]] const bool registered = (http_factory = [](const HttpConfig& c) -> std::unique_ptr<HttpApp> { return std::make_unique<App>(c); }, true);
}
}
