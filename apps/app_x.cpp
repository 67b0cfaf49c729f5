// Extractors.
#include "app_common.hpp"
#include <boost/describe.hpp>

namespace sim::app {
namespace x_types {
struct PS {
  std::string a;
  std::int32_t b;
};
struct PN {
  std::uint16_t u;
  bool flag;
  double d;
};
struct QS {
  std::string r;
  std::int32_t n;
  bool b;
  std::uint8_t u;
};
struct FS {
  std::string user;
  std::string pass;
  std::int64_t n;
};
struct JS {
  std::string s;
  std::int64_t n;
  std::vector<int> v;
  bool b;
};
BOOST_DESCRIBE_STRUCT(JS, (), (s, n, v, b))

std::string hexed(std::string_view s) { return std::to_string(s.size()) + ":" + std::to_string(hash_bytes(s)); }
w::response reply(const AppObs& o)
{
  return w::response::ok().set_header("X-R", o.rid).set_body(o.value);
}
awaitable<w::response> h_pt(const w::query_map& query, w::path_of<std::tuple<std::string, std::uint64_t>> p)
{
  auto& o = observe("pt", query.get("r").value_or(""));
  auto& [a, b] = p;
  o.value = hexed(a) + "|" + std::to_string(b);
  co_return reply(o);
}
awaitable<w::response> h_ps(const w::query_map& query, w::path_of<PS> p)
{
  auto& o = observe("ps", query.get("r").value_or(""));
  o.value = hexed(p.a) + "|" + std::to_string(p.b);
  co_return reply(o);
}
std::string real(double d)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
awaitable<w::response> h_pm(const w::query_map& query, w::path_of<std::tuple<std::int16_t, bool, double, std::string>> p)
{
  auto& o = observe("pm", query.get("r").value_or(""));
  auto& [a, b, c, d] = p;
  o.value = std::to_string(a) + "|" + (b ? "true" : "false") + "|" + real(c) + "|" + hexed(d);
  co_return reply(o);
}
awaitable<w::response> h_pn(const w::query_map& query, w::path_of<PN> p)
{
  auto& o = observe("pn", query.get("r").value_or(""));
  o.value = std::to_string(p.u) + "|" + (p.flag ? "true" : "false") + "|" + real(p.d);
  co_return reply(o);
}
awaitable<w::response> h_q(w::query_of<QS> p)
{
  auto& o = observe("q", p.r);
  o.value = std::to_string(p.n) + "|" + (p.b ? "true" : "false") + "|" + std::to_string(p.u);
  co_return reply(o);
}
awaitable<w::response> h_form(const w::query_map& query, w::form_of<FS> p)
{
  auto& o = observe("form", query.get("r").value_or(""));
  o.value = hexed(p.user) + "|" + hexed(p.pass) + "|" + std::to_string(p.n);
  co_return reply(o);
}
awaitable<w::response> h_json(const w::query_map& query, w::json_of<JS> p)
{
  auto& o = observe("json", query.get("r").value_or(""));
  o.value = hexed(p.s) + "|" + std::to_string(p.n) + "|" + (p.b ? "true" : "false");
  for (auto i : p.v) {
    o.value += "," + std::to_string(i);
  }
  co_return reply(o);
}
awaitable<w::response> h_str(const w::query_map& query, const f::http::header_map& hs, std::string body)
{
  auto& o = observe("str", query.get("r").value_or(""));
  o.value = hexed(body) + "|" + std::string(hs.get("x-m").value_or("?")) + "|" + (hs.contains("X-m") ? "in" : "out") + "|" + (hs.contains("X-Other") ? "in" : "out");
  auto [b, e] = hs.equal_range("X-M");
  for (; b != e; ++b) {
    o.value += "," + std::string(b->value());
  }
  co_return reply(o);
}
awaitable<w::response> h_all(const w::connect_info& ci, const w::path_info& pi, const w::query_map& query, const f::http::version& ver, const f::http::header_map& hs, std::vector<std::uint8_t> body)
{
  auto& o = observe("all", query.get("r").value_or(""));
  o.value = std::string(pi.get("p").value_or("?")) + "|" + pi.match_pattern() + "|" + std::string(hs.get("X-K").value_or("?")) + "|" + (ver == f::http::version::v1_1 ? "1.1" : "1.0") + "|"
      + hexed(std::string_view(reinterpret_cast<const char*>(body.data()), body.size()));
  o.kv.emplace_back("remote", std::string(ci.remote()));
  co_return reply(o);
}
// everything the path information offers
awaitable<w::response> h_pi(const w::connect_info& ci, const w::query_map& query, const w::path_info& pi)
{
  auto& o = observe("pi", query.get("r").value_or(""));
  auto& v = o.value;
  v = pi.match_pattern() + "|" + hexed(pi.match_path()) + "|" + std::to_string(pi.size()) + (pi.empty() ? "e" : "n");
  for (auto& k : pi.keys()) {
    v += "|" + k;
  }
  for (std::size_t i = 0; i < 5; ++i) {
    auto g = pi.get(i);
    v += "|" + (g ? hexed(*g) : "-");
    if (i < pi.size() && (pi.find(i)->second != pi.at(i) || &pi.at(i) != &*g)) {
      v += "!";
    }
  }
  for (auto& [k, x] : pi) {
    v += "|" + k + "=" + hexed(x);
  }
  for (auto k : { "c", "a", "b", "d", "" }) {
    v += pi.contains(k) ? "|" + hexed(pi.at(k)) : std::string("|-");
    v += pi.get(k).has_value() == pi.contains(k) ? "" : "!";
  }
  co_return w::response::ok().set_header("X-R", o.rid).set_header("X-Remote", ci.remote()).set_header("X-Local", ci.local()).set_body(v);
}
const Adder adder([](w::http_server::builder& b) {
  b.serve(w::route::get<"/x/pt/{a}/{b}">(h_pt));
  b.serve(w::route::get<"/x/ps/{b}/{a}">(h_ps));
  b.serve(w::route::get<"/x/pm/{a}/{b}/{c}/{d}">(h_pm));
  b.serve(w::route::get<"/x/pn/{d}/{flag}/{u}">(h_pn));
  b.serve(w::route::post<"/x/str">(h_str));
  b.serve(w::route::get<"/x/q">(h_q));
  b.serve(w::route::post<"/x/form">(h_form));
  b.serve(w::route::post<"/x/json">(h_json));
  b.serve(w::route::post<"/x/all/{p}">(h_all));
  b.serve(w::route::get<"/x/pi/{b}/mid/{a}/{c}">(h_pi));
});
}
}
