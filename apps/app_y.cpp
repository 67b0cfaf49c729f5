// What handlers return.
#include "app_common.hpp"
#include <boost/describe.hpp>
#include <fitoria/web/any_async_readable_stream.hpp>
#include <fitoria/web/async_readable_vector_stream.hpp>
#include <span>

namespace sim::app {
namespace y_types {
struct JR {
  std::string s;
  std::int64_t n;
  std::vector<int> v;
  bool b;
  std::optional<std::string> o;
};
BOOST_DESCRIBE_STRUCT(JR, (), (s, n, v, b, o))

using R = w::response;
using B = w::response_builder;
// in step with y_statuses in sim/app_app.hpp
B (*const helpers[])() = {
  R::ok, R::created, R::accepted, R::non_authoritative_information, R::no_content, R::reset_content, R::partial_content, R::multi_status, R::already_reported, R::im_used,
  R::multiple_choices, R::moved_permanently, R::found, R::see_other, R::not_modified, R::use_proxy, R::temporary_redirect, R::permanent_redirect,
  R::bad_request, R::unauthorized, R::payment_required, R::forbidden, R::not_found, R::method_not_allowed, R::not_acceptable, R::proxy_authentication_required, R::request_timeout, R::conflict, R::gone,
  R::length_required, R::precondition_failed, R::payload_too_large, R::uri_too_long, R::unsupported_media_type, R::range_not_satisfiable, R::expectation_failed, R::misdirected_request, R::unprocessable_entity,
  R::locked, R::failed_dependency, R::too_early, R::upgrade_required, R::precondition_required, R::too_many_requests, R::request_header_fields_too_large, R::unavailable_for_legal_reasons,
  R::internal_server_error, R::not_implemented, R::bad_gateway, R::service_unavailable, R::gateway_timeout, R::http_version_not_supported, R::variant_also_negotiates, R::insufficient_storage, R::loop_detected,
  R::not_extended, R::network_authentication_required,
};
static_assert(std::size(helpers) == n_y_statuses);

struct Op {
  char kind;
  int name;
  std::string value;
};
std::vector<Op> ops_of(const std::string& text)
{
  std::vector<Op> r;
  std::size_t at = 0;
  while (at < text.size()) {
    auto e = text.find(';', at);
    auto one = text.substr(at, e - at);
    r.push_back({ one[0], one[1] - 'a', one.substr(2) });
    at = e == std::string::npos ? text.size() : e + 1;
  }
  return r;
}
f::http::field known(int name)
{
  return name == 0 ? f::http::field::content_type : name == 3 ? f::http::field::set_cookie : f::http::field::location;
}
void run_ops(B& b, const std::vector<Op>& ops)
{
  for (auto& o : ops) {
    switch (o.kind) {
    case 's': b.set_header(y_names[o.name], o.value); break;
    case 'i': b.insert_header(y_names[o.name], o.value); break;
    case 'S': b.set_header(known(o.name), o.value); break;
    case 'I': b.insert_header(known(o.name), o.value); break;
    case 'c': b.set_status(std::stoi(o.value)); break;
    default: break;
    }
  }
}
f::bytes as_bytes(const std::string& s)
{
  auto v = std::as_bytes(std::span(s.data(), s.size()));
  return f::bytes(v.begin(), v.end());
}
// gives its pieces one by one, the way a user's stream would
class pieces_stream {
public:
  using is_async_readable_stream = void;
  pieces_stream(std::string all, std::size_t n)
      : all_(std::move(all))
      , n_(n)
  {
  }
  auto async_read_some() -> awaitable<f::optional<f::expected<f::bytes, std::error_code>>>
  {
    if (at_ >= all_.size()) {
      co_return f::nullopt;
    }
    auto k = std::min(n_, all_.size() - at_);
    auto r = as_bytes(all_.substr(at_, k));
    at_ += k;
    if (at_ / n_ % 3 == 0) {
      co_await pause(std::chrono::milliseconds(1));
    }
    co_return r;
  }

private:
  std::string all_;
  std::size_t n_, at_ = 0;
};
R with_body(B& b, const std::string& kind, std::string body)
{
  if (kind == "none") {
    return b.build();
  }
  if (kind == "empty") {
    return b.set_body();
  }
  if (kind == "text") {
    return b.set_body(std::string_view(body));
  }
  if (kind == "bytes") {
    return b.set_body(std::as_bytes(std::span(body.data(), body.size())));
  }
  if (kind == "vector") {
    return b.set_body(w::async_readable_vector_stream(as_bytes(body)));
  }
  if (kind == "any") {
    return b.set_body(w::any_async_readable_stream(pieces_stream(body, 700)));
  }
  if (kind == "sized") {
    return b.set_body(pieces_stream(body, 1000));
  }
  if (kind == "chunked") {
    return b.set_stream_body(pieces_stream(body, 1000));
  }
  return b.set_stream_body(w::async_readable_vector_stream(as_bytes(body)));
}
std::string param(const w::query_map& q, const char* k) { return std::string(q.get(k).value_or("")); }

awaitable<R> h_b(const w::query_map& query, std::string body)
{
  auto& o = observe("b", param(query, "r"));
  o.value = std::to_string(body.size());
  auto b = helpers[std::stoi(param(query, "h"))]();
  run_ops(b, ops_of(param(query, "o")));
  b.insert_header("X-R", o.rid);
  co_return with_body(b, param(query, "k"), std::move(body));
}
awaitable<std::string> h_s(const w::query_map& query, std::string body)
{
  observe("s", param(query, "r")).value = std::to_string(body.size());
  co_return body;
}
awaitable<std::vector<std::uint8_t>> h_v(const w::query_map& query, std::vector<std::uint8_t> body)
{
  observe("v", param(query, "r")).value = std::to_string(body.size());
  co_return body;
}
awaitable<f::bytes> h_y(const w::query_map& query, f::bytes body)
{
  observe("y", param(query, "r")).value = std::to_string(body.size());
  co_return body;
}
awaitable<std::variant<R, std::string, f::bytes>> h_var(const w::query_map& query, std::string body)
{
  auto& o = observe("var", param(query, "r"));
  o.value = std::to_string(body.size());
  auto k = param(query, "k");
  if (k == "text") {
    co_return body;
  }
  if (k == "bytes") {
    co_return as_bytes(body);
  }
  co_return R::accepted().set_header("X-R", o.rid).set_body(std::string_view(body));
}
awaitable<f::expected<std::string, R>> h_exp(const w::query_map& query, std::string body)
{
  auto& o = observe("exp", param(query, "r"));
  o.value = std::to_string(body.size());
  if (param(query, "k") == "text") {
    co_return body;
  }
  co_return f::unexpected { R::conflict().set_header("X-R", o.rid).set_body(std::string_view(body)) };
}
awaitable<R> h_j(const w::query_map& query, w::json_of<JR> j)
{
  auto& o = observe("j", param(query, "r"));
  o.value = std::to_string(j.s.size());
  co_return R::ok().set_header("X-R", o.rid).set_json(static_cast<const JR&>(j));
}
// changes the response of what is inside
struct changing {
  std::string tag;
  template <typename Request, typename Response, typename Next>
  class service {
  public:
    service(std::string tag, Next next)
        : tag_(std::move(tag))
        , next_(std::move(next))
    {
    }
    auto operator()(Request req) const -> Response
    {
      auto ops = ops_of(q(req, "m" + tag_));
      auto kind = q(req, "k" + tag_);
      auto res = co_await next_(req);
      if (ops.empty() && kind.empty()) {
        co_return res;
      }
      auto b = res.builder();
      run_ops(b, ops);
      if (kind.empty()) {
        co_return b.build();
      }
      co_return with_body(b, kind, "changed by " + tag_);
    }

  private:
    std::string tag_;
    Next next_;
  };
  template <typename Request, typename Response, typename Next>
  friend auto tag_invoke(w::to_middleware_t<Request, Response>, const changing& c, Next&& next)
  {
    return service<Request, Response, std::decay_t<Next>>(c.tag, std::forward<Next>(next));
  }
};
const Adder adder([](w::http_server::builder& b) {
  b.serve(w::scope<"/y">()
              .use(changing { "1" })
              .serve(w::route::any<"/b">(h_b).use(changing { "2" }))
              .serve(w::route::any<"/s">(h_s).use(changing { "2" }))
              .serve(w::route::any<"/v">(h_v))
              .serve(w::route::any<"/y">(h_y))
              .serve(w::route::any<"/var">(h_var))
              .serve(w::route::any<"/exp">(h_exp).use(changing { "2" }))
              .serve(w::route::post<"/j">(h_j)));
});
}
}
