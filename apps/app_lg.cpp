// Access logging and error reporting through the library's own logger.
#include "app_common.hpp"
#include <fitoria/log.hpp>
#include <fitoria/web/middleware/exception_handler.hpp>
#include <fitoria/web/middleware/logger.hpp>

namespace sim::app {
namespace {
namespace l = fitoria::log;

struct Probe final : l::async_writer {
  auto async_write(l::record_ptr rec) -> l::awaitable<void> override
  {
    app_world.log.push_back({ static_cast<int>(rec->lv), rec->msg, std::string(rec->file_name) });
    trace("log: %s", rec->msg.c_str());
    co_return;
  }
};

awaitable<w::response> h_lg(w::request& req)
{
  Live live;
  auto rid = q(req, "r");
  auto& o = observe("lg", rid);
  o.kv.emplace_back("x", std::string(req.path().get("x").value_or("")));
  if (auto d = qnum(req, "d", 0)) {
    co_await pause(std::chrono::milliseconds(d));
  }
  if (auto t = q(req, "t"); !t.empty()) {
    throw std::runtime_error(t);
  }
  auto b = w::response::ok();
  b.set_status(f::http::status_code(static_cast<int>(qnum(req, "s", 200))));
  co_return b.set_header("X-R", rid).set_body("lg");
}
// the body may not be what the extractor wants: answered without the handler
awaitable<w::response> h_lgx(w::request& req, w::json_of<std::vector<int>> v)
{
  Live live;
  auto rid = q(req, "r");
  observe("lgx", rid).value = std::to_string(v.size());
  co_return w::response::ok().set_header("X-R", rid).set_body("lgx");
}

const Adder adder([](w::http_server::builder& b) {
  using w::middleware::exception_handler;
  using w::middleware::logger;
  b.serve(w::scope<"/lg">()
              .use(logger())
              .serve(w::route::any<"/a/{x}">(h_lg))
              .serve(w::route::any<"/j/{x}">(h_lgx))
              .serve(w::route::any<"/e/{x}">(h_lg).use(exception_handler())));
  b.serve(w::route::any<"/lo/{x}">(h_lg).use(exception_handler()).use(logger()));
});

}

void start_logging(int mode)
{
  auto b = l::async_logger::builder();
  if (mode == 2) {
    b.set_filter(l::filter::at_least(l::level::error));
  }
  auto logger = b.build();
  logger->add_writer(std::make_shared<Probe>());
  l::registry::global().set_default_logger(std::move(logger));
}
void stop_logging() { l::registry::global().set_default_logger(nullptr); }
}
