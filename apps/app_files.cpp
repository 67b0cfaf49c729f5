// Serving and receiving files through the real io_uring file service.
#include "app_common.hpp"

namespace sim::app {
namespace {
awaitable<w::response> h_file(w::request& req)
{
  Live live;
  auto rid = q(req, "r");
  auto& o = observe("file", rid);
  auto path = "/simfs/d/" + std::string(req.path().get("name").value_or(""));
  auto ex = co_await net::this_coro::executor;
  auto file = q(req, "m") == "open" ? w::static_file::open(ex, path) : w::static_file::open(ex, path, req);
  if (!file) {
    o.err = file.error().message();
    co_return w::response::not_found().set_header("X-R", rid).set_body("open failed");
  }
  o.value = file->etag().to_string();
  if (auto t = q(req, "ct"); t == "json") {
    file->set_content_type(f::mime::application_json());
  }
  co_return w::to_response(std::move(*file)).builder().set_header("X-R", rid).build();
}
// the way the documentation does it
auto h_sfile(w::request& req) -> awaitable<std::variant<w::static_file, w::response>>
{
  Live live;
  observe("sfile", q(req, "r"));
  auto path = "/simfs/d/" + std::string(req.path().get("name").value_or(""));
  if (auto file = w::static_file::open(co_await net::this_coro::executor, path, req); file) {
    co_return std::move(*file);
  }
  co_return w::response::not_found().set_body("open failed");
}
awaitable<w::response> h_up(w::request& req)
{
  Live live;
  auto rid = q(req, "r");
  auto& o = observe("up", rid);
  auto path = "/simfs/u/" + std::string(req.path().get("name").value_or(""));
  auto file = f::stream_file(co_await net::this_coro::executor);
  boost::system::error_code ec;
  file.open(path, net::file_base::write_only | net::file_base::create | net::file_base::truncate, ec);
  if (ec) {
    o.err = "open: " + ec.message();
    co_return w::response::internal_server_error().set_header("X-R", rid).set_body("open failed");
  }
  auto n = co_await w::async_read_into_stream_file(req.body(), file);
  o.has_body = true;
  o.body_ok = n.has_value();
  if (!n) {
    o.err = n.error().message();
    co_return w::response::internal_server_error().set_header("X-R", rid).set_body("store failed");
  }
  o.value = std::to_string(*n);
  co_return w::response::created().set_header("X-R", rid).set_body("stored " + std::to_string(*n));
}
const Adder adder([](w::http_server::builder& b) {
  b.serve(w::route::get<"/file/#name">(h_file));
  b.serve(w::route::head<"/file/#name">(h_file));
  b.serve(w::route::get<"/sfile/#name">(h_sfile));
  b.serve(w::route::post<"/up/{name}">(h_up));
});
}
}
