// Compressed request bodies through the decompress middleware, and the
// compressing streams as response bodies.
#include "app_common.hpp"
#include <fitoria/web/middleware/decompress.hpp>
#include <fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp>

namespace sim::app {
namespace {
awaitable<w::response> answer(AppObs& o, const std::string& rid)
{
  co_return w::response::ok().set_header("X-R", rid).set_body("len:" + std::to_string(o.body.size()) + ":" + std::to_string(hash_bytes(o.body)));
}
awaitable<w::response> h_dz(w::request& req, std::string body)
{
  Live live;
  auto rid = q(req, "r");
  auto& o = observe("dz", rid);
  o.has_body = o.body_ok = true;
  o.body = std::move(body);
  o.value = std::string(req.headers().get("Content-Encoding").value_or("-"));
  co_return co_await answer(o, rid);
}
awaitable<w::response> h_dzp(w::request& req)
{
  Live live;
  auto rid = q(req, "r");
  auto& o = observe("dzp", rid);
  o.value = std::string(req.headers().get("Content-Encoding").value_or("-"));
  o.has_body = true;
  for (;;) {
    auto d = co_await req.body().async_read_some();
    if (!d) {
      break;
    }
    if (!*d) {
      o.err = (*d).error().message();
      co_return w::response::bad_request().set_header("X-R", rid).set_body("body error");
    }
    o.body += as_text(**d);
  }
  o.body_ok = true;
  co_return co_await answer(o, rid);
}
// Hands a body on in other pieces than it arrived in, as a middleware may:
// empty ones, single bytes, everything at once, late.
template <typename Next>
class reshaped {
public:
  using is_async_readable_stream = void;
  reshaped(Next next, std::uint64_t mode)
      : next_(std::move(next))
      , mode_(mode)
  {
  }
  auto async_read_some() -> awaitable<f::optional<f::expected<f::bytes, std::error_code>>>
  {
    ++n_;
    if (mode_ >= 3) { // all at once
      f::bytes all;
      bool any = false;
      for (;;) {
        auto d = co_await next_.async_read_some();
        if (!d) {
          if (any) {
            co_return all;
          }
          co_return f::nullopt;
        }
        if (!*d) {
          co_return f::unexpected { (*d).error() };
        }
        any = true;
        all.insert(all.end(), (*d)->begin(), (*d)->end());
      }
    }
    if (pos_ == have_.size()) {
      if (n_ % 3 == 0) {
        co_return f::bytes();
      }
      auto d = co_await next_.async_read_some();
      if (!d) {
        co_return f::nullopt;
      }
      if (!*d) {
        co_return f::unexpected { (*d).error() };
      }
      have_ = std::move(**d);
      pos_ = 0;
    } else if (n_ % 5 == 0) {
      co_return f::bytes();
    }
    if (n_ % 61 == 0) {
      co_await pause(std::chrono::milliseconds(1));
    }
    // the last bytes one by one
    auto left = have_.size() - pos_;
    auto n = mode_ == 1 || left <= 24 ? std::min<std::size_t>(left, 1 + n_ % 2 * (left > 24 ? 300 : 0)) : left - 24;
    f::bytes b(have_.begin() + static_cast<long>(pos_), have_.begin() + static_cast<long>(pos_ + n));
    pos_ += n;
    co_return b;
  }

private:
  Next next_;
  std::uint64_t mode_, n_ = 0;
  f::bytes have_;
  std::size_t pos_ = 0;
};
template <typename Request, typename Response, typename Next>
class reshape_middleware {
  friend class reshape;

public:
  auto operator()(Request req) const -> Response
  {
    Live live;
    if (auto mode = qnum(req, "shape", 0)) {
      auto body = std::move(req.body());
      req = req.builder().set_body(reshaped<std::decay_t<decltype(req.body())>>(std::move(body), static_cast<std::uint64_t>(mode)));
    }
    co_return co_await next_(req);
  }

private:
  template <typename Next2>
  reshape_middleware(Next2&& next)
      : next_(std::forward<Next2>(next))
  {
  }
  Next next_;
};
class reshape {
public:
  template <typename Request, typename Response, f::decay_to<reshape> Self, typename Next>
  friend auto tag_invoke(w::to_middleware_t<Request, Response>, Self&&, Next&& next)
  {
    return reshape_middleware<Request, Response, std::decay_t<Next>>(std::forward<Next>(next));
  }
};
class piece_stream {
public:
  using is_async_readable_stream = void;
  piece_stream(std::string data, std::vector<std::size_t> pieces, long fail_at)
      : data_(std::move(data))
      , pieces_(std::move(pieces))
      , fail_at_(fail_at)
  {
  }
  auto async_read_some() -> awaitable<f::optional<f::expected<f::bytes, std::error_code>>>
  {
    if (fail_at_ >= 0 && static_cast<long>(i_) == fail_at_) {
      switch (data_.size() % 4) { // none of which is the end of a body
      case 1: co_return f::unexpected { make_error_code(net::error::eof) };
      case 2: co_return f::unexpected { make_error_code(boost::beast::http::error::end_of_stream) };
      case 3: co_return f::unexpected { make_error_code(boost::beast::zlib::error::end_of_stream) };
      default: co_return f::unexpected { make_error_code(std::errc::io_error) };
      }
    }
    if (i_ == pieces_.size()) {
      co_return f::nullopt;
    }
    auto n = pieces_[i_++];
    f::bytes b(n);
    if (n) {
      memcpy(b.data(), data_.data() + pos_, n);
    }
    pos_ += n;
    co_return b;
  }

private:
  std::string data_;
  std::vector<std::size_t> pieces_;
  std::size_t i_ = 0, pos_ = 0;
  long fail_at_;
};
awaitable<w::response> h_cz(w::request& req)
{
  Live live;
  auto rid = q(req, "r");
  observe("cz", rid);
  auto key = static_cast<std::uint64_t>(qnum(req, "k", 0));
  auto n = static_cast<std::size_t>(qnum(req, "n", 0));
  auto data = qnum(req, "t", 0) ? text_blob(key, n) : blob(key, n);
  auto pieces = code_pieces(key, n, static_cast<int>(qnum(req, "p", 0)));
  auto s = piece_stream(data, pieces, qnum(req, "f", -1));
  auto alg = q(req, "alg");
  auto b = w::response::ok();
  b.set_header("X-R", rid).set_header("Content-Encoding", alg);
  if (alg == "deflate") {
    co_return b.set_stream_body(w::middleware::detail::async_deflate_stream(std::move(s)));
  }
  if (alg == "gzip") {
    co_return b.set_stream_body(w::middleware::detail::async_gzip_deflate_stream(std::move(s)));
  }
  co_return b.set_stream_body(w::middleware::detail::async_brotli_deflate_stream(std::move(s)));
}
const Adder adder([](w::http_server::builder& b) {
  b.serve(w::scope<"/z">()
              .use(reshape())
              .use(w::middleware::decompress())
              .use(reshape())
              .serve(w::route::post<"/dz">(h_dz))
              .serve(w::route::post<"/dzp">(h_dzp)));
  b.serve(w::route::get<"/cz">(h_cz));
});
}
}
