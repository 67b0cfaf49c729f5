// HTTP server scenarios: simulated clients with their own encoder and parser
// against the real server; expectations come from the request alone.
#include "app_http.hpp"
#include "harness.hpp"
#include "http.hpp"
#include "wire.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <thread>

namespace sim {
HttpFactory http_factory = nullptr;
HttpWorld http_world;
}

namespace {
using namespace sim;
using http::Request;
using http::Response;

constexpr std::uint16_t PORT = 8080;
const std::string SOCK = "/simfs/server.sock";

// ------------------------------------------------------------------ model
struct Exp {
  bool response = true;     // a response is due
  int status = 200;
  std::string body;
  int framing = -1;         // required Response::Framing
  bool rid = true;          // carries X-R
  bool closes = false;      // connection must end afterwards
  bool may_close = false;   // server may end the connection afterwards
  bool truncated = false;   // response must break off
  bool optional = false;    // response may be missing (connection then ends)
  bool alt_400 = false;     // may also be refused as too large
  bool error_only = false;  // if a response comes its status is >= 400
  bool head = false;
  bool interim = false;     // one 100 precedes
  bool handler = false;     // the handler runs exactly once
  bool handler_maybe = false;
  bool body_seen = false;   // handler reads the body
  bool body_never = false;  // handler must not get a complete body
  std::string extra;        // value of the X-V and X-W headers
  std::string what;
};
struct Planned {
  Request rq;
  std::string raw; // overrides rq
  std::string rid;
  std::string route;
  std::vector<std::pair<std::string, std::string>> params;
  Exp e;
  ns_t slow = 0;
  bool wait100 = false;
  std::string wire() const { return raw.empty() ? rq.wire() : raw; }
};

struct Run {
  HttpConfig cfg;
  bool faulty = false;
  int next_rid = 1;
  bool stopped_early = false;
};
Run* g_run;

std::string pct(const std::string& s)
{
  std::string o;
  for (unsigned char c : s) {
    if (isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~') {
      o += static_cast<char>(c);
    } else {
      char b[8];
      snprintf(b, sizeof b, "%%%02X", c);
      o += b;
    }
  }
  return o;
}

std::size_t body_size(const std::string& st)
{
  switch (pick(st, 9)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return range(st, 2, 64);
  case 3: return range(st, 2, 3000);
  case 4: return range(st, 3000, 20000);
  case 5: return range(st, 60000, 70000);
  case 6: return 65536 * range(st, 1, 2) + pick(st, 3) - 1;
  case 7: return range(st, 1, 300);
  default: return range(st, 100000, 300000);
  }
}

void set_body(Planned& p, const std::string& st, std::size_t n)
{
  if (n == 0 && pick(st, 2)) {
    p.rq.framing = Request::none;
    p.rq.body.clear();
    return;
  }
  p.rq.body = blob(hash_bytes(p.rid), n);
  p.rq.framing = pick(st, 2) && p.rq.minor == 1 ? Request::chunked : Request::length;
  if (p.rq.framing == Request::chunked) {
    for (auto k = range(st, 1, 4); k--;) {
      p.rq.chunk_sizes.push_back(pick(st, 3) == 0 ? range(st, 1, 9) : range(st, 10, 40000));
    }
    if (n > 20000) {
      for (auto& c : p.rq.chunk_sizes) {
        c = std::max<std::size_t>(c, 500);
      }
    }
    p.rq.chunk_ext = pick(st, 4) == 0;
    p.rq.trailers = pick(st, 4) == 0;
  }
}

// st: choice stream of this client
Planned make_request(const std::string& st, bool last)
{
  auto& cfg = g_run->cfg;
  Planned p;
  p.rid = "q" + std::to_string(g_run->next_rid++);
  auto& rq = p.rq;
  auto& e = p.e;
  if (pick(st, 12) == 11) {
    rq.minor = 0;
  }
  bool close = false;
  if (rq.minor == 0) {
    if (pick(st, 2)) {
      rq.headers.emplace_back("Connection", "keep-alive");
    } else {
      close = true;
    }
  } else if ((last && pick(st, 2)) || pick(st, 12) == 11) {
    rq.headers.emplace_back(pick(st, 2) ? "Connection" : "connection", "close");
    close = true;
  }
  rq.headers.insert(rq.headers.begin(), { "Host", "localhost" });
  if (pick(st, 3) == 0) {
    rq.headers.emplace_back("X-Pad", text_blob(hash_bytes(p.rid) + 1, range(st, 1, 200)));
  }
  auto q = "?r=" + p.rid;
  auto body_limit = cfg.body_limit < 0 ? SIZE_MAX : static_cast<std::size_t>(cfg.body_limit);
  auto fit = [&](std::size_t n) { return std::min(n, body_limit); };
  e.handler = true;
  auto kind = pick(st, 24);
  switch (kind) {
  case 0:
  case 1:
  case 2: {
    p.route = "id";
    auto a = text_blob(hash_bytes(p.rid) + 2, range(st, 1, 12));
    auto b = text_blob(hash_bytes(p.rid) + 3, range(st, 1, 4));
    if (pick(st, 4) == 0) {
      a += "-x y~z";
    }
    p.params = { { "a", a }, { "b", b } };
    static const char* const id[] = { "/id/", "/%69d/", "/i%64/", "/%69%64/" };
    rq.target = std::string(id[pick(st, 8) ? 0 : pick(st, 4)]) + pct(a) + "/" + pct(b) + q;
    e.body = "id|a=" + a + "|b=" + b;
    if (pick(st, 2)) {
      auto x = text_blob(hash_bytes(p.rid) + 4, range(st, 1, 30)) + (pick(st, 2) ? " &=" : "");
      rq.target += "&x=" + pct(x);
      e.body += "|x=" + x;
    }
    if (pick(st, 2)) {
      auto k = text_blob(hash_bytes(p.rid) + 5, range(st, 1, 60));
      rq.headers.emplace_back(pick(st, 2) ? "X-K" : "x-k", k);
      e.body += "|k=" + k;
    }
    break;
  }
  case 3:
  case 4:
    p.route = "echo";
    rq.method = "POST";
    rq.target = "/echo" + q;
    set_body(p, st, fit(body_size(st)));
    e.body = rq.body;
    e.body_seen = true;
    break;
  case 5:
    p.route = "len";
    rq.method = "POST";
    rq.target = "/len" + q;
    set_body(p, st, fit(body_size(st)));
    e.body = "len:" + std::to_string(rq.body.size()) + ":" + std::to_string(hash_bytes(rq.body));
    e.body_seen = true;
    break;
  case 6:
    p.route = "pieces";
    rq.method = "POST";
    rq.target = "/pieces" + q;
    set_body(p, st, fit(body_size(st)));
    e.body = "len:" + std::to_string(rq.body.size()) + ":" + std::to_string(hash_bytes(rq.body));
    e.body_seen = true;
    break;
  case 7:
  case 8: {
    p.route = "noread";
    rq.method = "POST";
    rq.target = "/noread" + q;
    set_body(p, st, fit(body_size(st)));
    if (pick(st, 3) == 0 && rq.framing != Request::none) {
      // an unread body that looks like a request
      auto evil = "GET /id/evil/evil?r=evil HTTP/1.1\r\nHost: x\r\n\r\n";
      rq.body = evil;
      while (rq.body.size() < 400 && pick(st, 2)) {
        rq.body += evil;
      }
      rq.body.resize(fit(rq.body.size()));
    }
    e.body = "noread";
    e.may_close = rq.framing != Request::none;
    break;
  }
  case 9:
    p.route = "echostream";
    rq.method = "POST";
    rq.target = "/echostream" + q;
    set_body(p, st, fit(body_size(st)));
    e.body = rq.body;
    e.framing = Response::chunked;
    break;
  case 10:
  case 11:
  case 12:
  case 13: {
    p.route = "gen";
    auto n = body_size(st);
    auto key = pick(st, 100000);
    auto mode = pick(st, 5);
    rq.target = "/gen" + q + "&k=" + std::to_string(key) + "&n=" + std::to_string(n);
    e.body = blob(key, n);
    e.framing = Response::length;
    bool head = pick(st, 10) == 9;
    if (mode == 0) {
      rq.target += "&m=sized";
    } else if (mode == 1) {
      rq.target += "&m=stream";
    } else if (mode < 4) {
      bool empties = pick(st, 8) == 7;
      rq.target += empties ? "&m=chunked&e=1" : "&m=chunked";
      e.framing = Response::chunked;
      auto pieces = gen_pieces(key, n, empties);
      if (pick(st, 3) == 0) {
        auto d = range(st, 1, 20);
        p.slow = static_cast<ns_t>(pieces.size() + 1) * d * ms;
        if (p.slow < 1 * sec) {
          rq.target += "&d=" + std::to_string(d);
        } else {
          p.slow = 0;
        }
      }
      if (pick(st, 6) == 0 && !head) {
        auto fa = pick(st, static_cast<std::uint32_t>(pieces.size() + 1));
        rq.target += "&f=" + std::to_string(fa);
        e.truncated = true;
        std::size_t keep = 0;
        for (std::size_t i = 0; i < fa; ++i) {
          keep += pieces[i];
        }
        e.body.resize(keep);
        e.closes = true;
      }
      if (rq.minor == 0) {
        rq.minor = 1; // chunked responses are for HTTP/1.1 only
        if (close) {
          rq.headers.emplace_back("Connection", "close");
        }
      }
    } else {
      static const int st_[] = { 200, 204, 304, 201, 404, 500 };
      auto s = st_[pick(st, 6)];
      rq.target = "/gen" + q + "&k=0&m=null&n=" + std::to_string(s);
      e.status = s;
      e.body.clear();
      e.framing = s == 204 || s == 304 ? Response::none : Response::length;
    }
    if (mode == 1 && pick(st, 6) == 0 && !head) {
      rq.target += "&f=0";
      e.response = false;
      e.closes = true;
    }
    if (pick(st, 5) == 4) {
      rq.target += "&h=0";
      e.rid = false;
    }
    if (pick(st, 5) == 4) {
      e.extra = text_blob(hash_bytes(p.rid) + 6, range(st, 1, 40));
      rq.target += "&v=" + e.extra;
    }
    if (head) {
      rq.method = "HEAD";
      e.head = true;
      e.framing = Response::none;
      e.body.clear();
    }
    break;
  }
  case 14:
  case 15: {
    static const char* ms_[] = { "GET", "PUT", "DELETE", "PATCH", "POST", "OPTIONS" };
    p.route = "any";
    rq.method = ms_[pick(st, 6)];
    rq.target = "/any" + q;
    if (rq.method != "GET") {
      set_body(p, st, fit(body_size(st)));
    }
    e.body = "any|" + rq.method + "|" + std::to_string(hash_bytes(rq.body));
    e.body_seen = true;
    break;
  }
  case 16: {
    static const char* t[] = { "/nope", "/id/a", "/id/a/b/c", "/echo/", "/ec", "/", "//", "/any/x" };
    rq.target = t[pick(st, 8)] + q;
    if (pick(st, 3) == 0) {
      rq.method = "POST";
      set_body(p, st, fit(pick(st, 2) ? range(st, 1, 300) : 0));
      e.may_close = rq.framing != Request::none;
    } else if (pick(st, 6) == 5) {
      rq.method = "HEAD";
      e.head = true;
    }
    e.status = 404;
    e.body = e.head ? "" : "request path is not found";
    e.rid = e.handler = false;
    break;
  }
  case 17: {
    // a known path with a method it does not serve
    rq.method = "PUT";
    rq.target = (pick(st, 2) ? "/echo" : "/id/a/b") + q;
    e.status = 404;
    e.body = "request path is not found";
    e.rid = e.handler = false;
    break;
  }
  case 18: {
    static const char* t[] = { "*", "http://localhost/id/a/b", "id/a/b", "/id/%zz/b", "/id/a b" };
    auto k = pick(st, 4);
    rq.target = t[k];
    e.status = 400;
    e.body = "request target is invalid";
    e.rid = e.handler = false;
    break;
  }
  case 19:
    p.route = "throw";
    rq.target = "/throw" + q + (pick(st, 2) ? "&d=1" : "") + (pick(st, 3) == 0 ? "&t=1" : "");
    e.response = false;
    e.closes = true;
    break;
  case 20: {
    p.route = "slow";
    ns_t d = pick(st, 4) == 0 ? range(st, 3000, 9000) : range(st, 0, 1500);
    rq.target = "/slow" + q + "&d=" + std::to_string(d);
    p.slow = d * ms;
    e.body = "slow";
    break;
  }
  case 21: {
    p.route = pick(st, 2) ? "echo" : "any";
    rq.method = "POST";
    rq.target = "/" + p.route + q;
    set_body(p, st, fit(std::max<std::size_t>(1, body_size(st))));
    rq.headers.emplace_back(pick(st, 2) ? "Expect" : "expect", pick(st, 2) ? "100-continue" : "100-Continue");
    e.interim = rq.minor == 1;
    if (rq.minor == 0) {
      rq.headers.pop_back();
    }
    e.body = p.route == "echo" ? rq.body : "any|POST|" + std::to_string(hash_bytes(rq.body));
    e.body_seen = true;
    p.wait100 = e.interim && pick(st, 4) != 0;
    break;
  }
  case 22: {
    if (pick(st, 2)) {
      // body around the limit
      p.route = pick(st, 2) ? "echo" : "len";
      rq.method = "POST";
      rq.target = "/" + p.route + q;
      if (cfg.body_limit < 0 || cfg.body_limit > 400000) {
        set_body(p, st, fit(cfg.body_limit < 0 && pick(st, 2) ? 1024 * 1024 + 1 + pick(st, 300000) : body_size(st)));
      } else {
        static const int d[] = { 0, -1, 1, 2, 1000, 70000 };
        auto dd = d[pick(st, 6)];
        set_body(p, st, static_cast<std::size_t>(std::max<std::int64_t>(cfg.body_limit + dd, 1)));
      }
      if (rq.body.size() > body_limit) {
        e.optional = e.error_only = e.closes = true;
        e.handler = false;
        e.handler_maybe = e.body_never = true;
        e.rid = false;
        break;
      }
      e.body = p.route == "echo" ? rq.body : "len:" + std::to_string(rq.body.size()) + ":" + std::to_string(hash_bytes(rq.body));
      e.body_seen = true;
      break;
    }
    // header around the limit
    p.route = "id";
    p.params = { { "a", "h" }, { "b", "l" } };
    rq.target = "/id/h/l" + q;
    auto limit = cfg.header_limit < 0 ? 40000 : cfg.header_limit;
    auto base = static_cast<std::int64_t>(rq.head().size());
    // Beast applies the limit to the header fields of each parsing step, so
    // the bound a user can rely on is: up to the limit accepted, beyond twice
    // the limit rejected
    auto over = pick(st, 3);
    auto want = over == 0 ? limit - 64 - pick(st, 200) : over == 1 ? 2 * limit + 100 + pick(st, 3000) : limit + 64 + pick(st, static_cast<std::uint32_t>(limit));
    while (want - base > 20) {
      auto n = std::min<std::int64_t>(want - base - 8, pick(st, 2) ? 4000 : 300);
      rq.headers.emplace_back("X-P" + std::to_string(rq.headers.size() % 10), text_blob(1, static_cast<std::size_t>(n)));
      base = static_cast<std::int64_t>(rq.head().size());
    }
    auto start = static_cast<std::int64_t>(rq.head().find("\r\n")) + 2;
    e.body = "id|a=h|b=l";
    if (cfg.header_limit >= 0 && base > limit) {
      if (base > 2 * limit + start) {
        e.status = 400;
        e.body = "request headers size exceeds limit";
        e.closes = true;
        e.rid = e.handler = false;
      } else {
        e.alt_400 = true;
        e.handler = false;
        e.handler_maybe = e.may_close = true;
      }
    }
    break;
  }
  default: {
    // not HTTP
    static const char* g[] = { "GARBAGE\r\n\r\n", "GET /id/a/b HTTP/1.1\r\nHost\r\n\r\n", "GET /id/a/b HTTP/3.1\r\n\r\n", "GET  HTTP/1.1\r\n\r\n",
      "POST /echo?r=bad HTTP/1.1\r\nContent-Length: 1x\r\n\r\na", "POST /echo?r=bad HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n\r\n",
      "POST /echo?r=bad HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nhello!", "\0\0\0\0" };
    p.raw = g[pick(st, 7)];
    e.optional = e.error_only = e.closes = true;
    e.handler = false;
    e.rid = false;
    p.rid = p.raw.find("r=bad") != std::string::npos ? "bad" : "";
    e.handler_maybe = e.body_never = true;
    e.what = "malformed";
    return p;
  }
  }
  e.closes |= close;
  e.what = rq.method + " " + show(rq.target, 40);
  return p;
}

// ------------------------------------------------------------------ client
struct Client : Peer {
  std::string label, st;
  Conn* conn = nullptr;
  std::vector<Planned> plan;
  // behaviour
  enum Mode { sequential, pipelined, overlapped } mode = sequential;
  enum Cut { no_cut, cut_silent, cut_fin, cut_reset } cut = no_cut;
  std::size_t cut_at = 0; // plaintext bytes
  bool half_close = false, stay = false, tls = false;
  bool tls_break = false; // breaks off inside the TLS handshake
  std::size_t tls_break_at = 0;
  std::vector<ns_t> gaps;
  ns_t start = 0;
  ns_t pause_at = -1, pause_for = 0;
  // state
  bool unprompted = false; // it was the server who ended the connection
  bool connected = false, refused = false, fin = false, rst = false, closed_by_us = false, cut_done = false;
  std::string in;              // undigested response bytes
  std::size_t next = 0;        // next response expected
  std::size_t sent = 0;        // requests completely handed over
  std::size_t out_bytes = 0;
  bool waiting100 = false, got100 = false;
  std::vector<ns_t> t_resp;
  bool bad = false;
  Response partial;            // last incomplete response
  bool finished = false;
  SSL* ssl = nullptr;
  BIO *rb = nullptr, *wb = nullptr;
  bool hs_done = false, close_notify = false;
  std::string tls_pending;
  std::size_t tls_out = 0;

  ~Client() override
  {
    if (ssl) {
      SSL_free(ssl);
    }
  }
  void fail(const std::string& props, const std::string& cat, const std::string& msg)
  {
    if (!bad) {
      bad = true;
      violation(props, cat, label + ": " + msg);
    }
  }
  // ------------------------------------------------------ transport
  void raw_send(std::string_view d)
  {
    if (tls_break && !hs_done) {
      if (tls_out >= tls_break_at) {
        return;
      }
      auto n = std::min(d.size(), tls_break_at - tls_out);
      tls_out += n;
      conn->send(d.substr(0, n));
      if (tls_out >= tls_break_at) {
        do_cut();
      }
      return;
    }
    conn->send(d);
  }
  void tls_flush()
  {
    char b[16384];
    int n;
    while ((n = BIO_read(wb, b, sizeof b)) > 0) {
      raw_send({ b, static_cast<std::size_t>(n) });
    }
  }
  void tls_step()
  {
    if (!hs_done) {
      int r = SSL_do_handshake(ssl);
      tls_flush();
      if (r == 1) {
        hs_done = true;
        trace("%s TLS established", label.c_str());
        begin();
      } else if (SSL_get_error(ssl, r) != SSL_ERROR_WANT_READ) {
        ERR_clear_error();
        return;
      }
    }
    if (hs_done) {
      char b[16384];
      for (;;) {
        int n = SSL_read(ssl, b, sizeof b);
        if (n > 0) {
          plain_in({ b, static_cast<std::size_t>(n) });
          continue;
        }
        int er = SSL_get_error(ssl, n);
        if (er == SSL_ERROR_ZERO_RETURN && !close_notify) {
          close_notify = true;
          trace("%s close_notify", label.c_str());
        } else if (er == SSL_ERROR_SSL && ERR_GET_REASON(ERR_peek_error()) != SSL_R_PROTOCOL_IS_SHUTDOWN) {
          char eb[200];
          ERR_error_string_n(ERR_peek_error(), eb, sizeof eb);
          fail("H09", "tls record error", std::string("corrupt TLS record from the server: ") + eb);
        }
        ERR_clear_error();
        break;
      }
      tls_flush();
      if (close_notify && !closed_by_us) {
        SSL_shutdown(ssl);
        tls_flush();
      }
    }
  }
  void put(std::string_view d)
  {
    if (cut_done || closed_by_us) {
      return;
    }
    bool cutting = false;
    if (cut != no_cut && !tls_break && out_bytes + d.size() >= cut_at) {
      d = d.substr(0, cut_at > out_bytes ? cut_at - out_bytes : 0);
      cutting = true;
    }
    out_bytes += d.size();
    if (tls) {
      if (!d.empty()) {
        SSL_write(ssl, d.data(), static_cast<int>(d.size()));
      }
      tls_flush();
    } else {
      conn->send(d);
    }
    if (cutting) {
      do_cut();
    }
  }
  void do_cut()
  {
    if (cut_done) {
      return;
    }
    cut_done = true;
    trace("%s cut (%d) after %zu bytes", label.c_str(), cut, out_bytes);
    if (cut == cut_fin) {
      fault("client_fin_mid_request");
      conn->shutdown_send();
    } else if (cut == cut_reset) {
      fault("client_reset_mid_request");
      conn->reset();
    } else {
      fault("client_goes_silent");
    }
  }
  // ------------------------------------------------------ behaviour
  void go()
  {
    conn = g_run->cfg.transport == HttpConfig::local || g_run->cfg.transport == HttpConfig::tls_local ? connect_local(this, SOCK, label) : connect(this, PORT, label);
    if (pause_at >= 0) {
      after(pause_at, [this] { conn->pause(true); });
      after(pause_at + pause_for, [this] { conn->pause(false); });
    }
  }
  void on_connected() override
  {
    connected = true;
    if (tls) {
      static SSL_CTX* ctx = [] {
        auto* c = SSL_CTX_new(TLS_client_method());
        SSL_CTX_set_verify(c, SSL_VERIFY_NONE, nullptr);
        return c;
      }();
      ssl = SSL_new(ctx);
      rb = BIO_new(BIO_s_mem());
      wb = BIO_new(BIO_s_mem());
      SSL_set_bio(ssl, rb, wb);
      SSL_set_connect_state(ssl);
      after(0, [this] { tls_step(); });
    } else {
      after(0, [this] { begin(); });
    }
  }
  void begin()
  {
    if (plan.empty()) {
      return;
    }
    if (mode == pipelined) {
      std::string all;
      for (auto& p : plan) {
        all += p.wire();
      }
      sent = plan.size();
      put(all);
      after_last();
    } else {
      send_next();
    }
  }
  void after_last()
  {
    if (half_close && !cut_done && !tls) {
      conn->shutdown_send();
    }
  }
  void send_next()
  {
    if (sent >= plan.size() || cut_done || closed_by_us) {
      return;
    }
    auto& p = plan[sent];
    if (p.wait100 && mode == sequential && !cut) {
      waiting100 = true;
      got100 = false;
      put(p.rq.head());
      return; // payload follows the 100
    }
    ++sent;
    put(p.wire());
    if (sent == plan.size()) {
      after_last();
      return;
    }
    if (mode == overlapped) {
      after(gaps[sent], [this] { send_next(); });
    }
  }
  void on_refused() override { refused = true; }
  void on_reset() override
  {
    rst = true;
    done_reading();
  }
  void on_fin() override
  {
    fin = true;
    unprompted = !conn->fin_sent;
    digest();
    done_reading();
  }
  void done_reading() { close(); }
  void close()
  {
    if (closed_by_us || !conn) {
      return;
    }
    closed_by_us = true;
    conn->close();
  }
  void on_data(std::string_view d) override
  {
    if (tls) {
      BIO_write(rb, d.data(), static_cast<int>(d.size()));
      tls_step();
    } else {
      plain_in(d);
    }
  }
  void plain_in(std::string_view d)
  {
    in += d;
    digest();
  }
  void digest()
  {
    while (!bad) {
      if (in.empty() && !(fin && false)) {
        return;
      }
      bool head = next < plan.size() && plan[next].e.head;
      auto r = http::parse_response(in, head, fin);
      if (!r.error.empty()) {
        fail("H01 H03 H04", "not a response", "after " + std::to_string(next) + " responses: " + r.error);
        return;
      }
      if (next >= plan.size()) {
        fail("H01 H03 H04", "extra response bytes", std::to_string(in.size()) + " bytes after all " + std::to_string(plan.size()) + " responses: " + show(in));
        return;
      }
      auto& p = plan[next];
      partial = r;
      if (!r.complete) {
        return;
      }
      in.erase(0, r.consumed);
      if (r.status == 100) {
        if (!p.e.interim || got100) {
          fail("H01 H03", "unexpected 100", "100 Continue before response " + std::to_string(next) + " (" + p.e.what + ")");
          return;
        }
        got100 = true;
        if (waiting100) {
          waiting100 = false;
          ++sent;
          auto body = p.rq.payload();
          after(gaps[next] / 8, [this, body] {
            put(body);
            if (sent == plan.size()) {
              after_last();
            }
          });
        }
        partial = {};
        continue;
      }
      check(next, r, true);
      partial = {};
      got100 = false;
      if (waiting100) {
        waiting100 = false;
        ++sent;
      }
      t_resp.push_back(now());
      ++next;
      if (p.e.closes || bad) {
        continue;
      }
      if (next == plan.size()) {
        if (!stay && !half_close && !tls) {
          after(gaps[0], [this] { close(); });
        } else if (tls && !stay) {
          after(gaps[0], [this] {
            if (!closed_by_us && hs_done) {
              SSL_shutdown(ssl);
              tls_flush();
              conn->shutdown_send();
            }
          });
        }
      } else if (mode == sequential) {
        after(gaps[next], [this] { send_next(); });
      }
    }
  }
  void check(std::size_t i, const Response& r, bool complete)
  {
    auto& p = plan[i];
    auto& e = p.e;
    auto id = "response " + std::to_string(i) + " (" + e.what + ")";
    bool was_cut = cut_done && !whole(i);
    if (!e.response) {
      fail("H01 H03 H07", "response where none is due", id + ": status " + std::to_string(r.status));
      return;
    }
    if (e.error_only || (was_cut && e.body_seen)) {
      if (r.status < 400 && p.route != "any") {
        fail(was_cut ? "H02" : "H05 H02", "incomplete or oversized request answered as success", id + ": status " + std::to_string(r.status));
      }
      return;
    }
    if (e.alt_400 && r.status == 400) {
      if (complete && r.body != "request headers size exceeds limit") {
        fail("H05", "wrong body", id + ": " + show(r.body));
      }
      return;
    }
    if (r.status != e.status) {
      fail("H01 H05 H07", "wrong status", id + ": " + std::to_string(r.status) + " instead of " + std::to_string(e.status) + " body " + show(r.body, 40));
      return;
    }
    auto rid = r.get("X-R").value_or("");
    if (rid != (e.rid ? p.rid : "")) {
      fail("H01", "response of another request", id + ": carries X-R '" + show(rid) + "'");
      return;
    }
    if (e.response && !e.extra.empty() && (r.all("X-V") != std::vector<std::string> { e.extra } || r.all("X-W") != std::vector<std::string> { e.extra + "1", e.extra + "2" })) {
      fail("H03", "response headers altered", id);
      return;
    }
    if (e.framing >= 0 && r.framing != e.framing) {
      fail("H03", "wrong framing", id + ": framing " + std::to_string(r.framing));
      return;
    }
    if (e.truncated && complete) {
      fail("H03", "broken body stream looks complete", id + ": body source failed after " + std::to_string(e.body.size()) + " bytes, response ended normally with " + std::to_string(r.body.size()));
      return;
    }
    if (complete ? r.body != e.body : r.body != e.body.substr(0, r.body.size()) || r.body.size() > e.body.size()) {
      std::size_t k = 0;
      while (k < r.body.size() && k < e.body.size() && r.body[k] == e.body[k]) {
        ++k;
      }
      fail(e.body_seen ? "H02 H01 H03" : "H03 H01 H04", "wrong body", id + ": " + std::to_string(r.body.size()) + " bytes instead of " + std::to_string(e.body.size()) + ", differs at " + std::to_string(k) + ": " + show(std::string_view(r.body).substr(k), 40));
      return;
    }
    if (e.interim && !got100 && complete) {
      fail("H03", "no 100 Continue", id);
      return;
    }
    auto conh = r.get("connection").value_or("");
    bool says_close = http::ieq(conh, "close");
    if (e.closes && !e.truncated && r.minor == 1 && !says_close) {
      fail("H04", "missing Connection: close", id + ": the connection ends after this response but it does not say so");
    }
    if (!e.closes && !e.may_close && says_close) {
      fail("H04", "needless Connection: close", id);
    }
  }
  // request i was completely sent
  bool whole(std::size_t i) const
  {
    if (!cut_done) {
      return i < sent;
    }
    if (tls_break) {
      return false;
    }
    std::size_t n = 0;
    for (std::size_t k = 0; k <= i; ++k) {
      n += plan[k].wire().size();
    }
    return n <= cut_at;
  }
  bool harmful() const { return cut_done && cut == cut_reset; }

  // at quiescence, before the client gives up
  void judge()
  {
    auto T = g_run->cfg.request_timeout;
    if (bad || !conn) {
      return;
    }
    if (refused) {
      fail("H07", "connection refused", "the server is bound but refused a connection");
      return;
    }
    if (!connected) {
      return;
    }
    if (!partial.error.empty()) {
      return;
    }
    if (!in.empty() && next < plan.size() && partial.head_complete) {
      check(next, partial, false);
    }
    if (bad) {
      return;
    }
    // liveness: with a timeout every connection ends
    bool forever = conn->paused;
    if (T >= 0 && !conn->server_closed && !forever && !(tls && !server_ready() && g_run->cfg.tls_timeout < 0)) {
      fail("H06 H08", "connection never ends", "nothing left to happen, request timeout " + std::to_string(T / ms) + " ms, " + std::to_string(next) + "/" + std::to_string(plan.size()) + " responses, connection still open");
      return;
    }
    if (T >= 0 && conn->t_accepted >= 0 && conn->server_closed && !profile.cpu && (!tls || server_ready())) {
      auto t = std::max({ conn->t_accepted, conn->t_last_recv, conn->t_last_sent });
      bool running = false;
      for (auto& o : http_world.obs) {
        if (std::any_of(plan.begin(), plan.end(), [&](auto& p) { return p.rid == o->rid; })) {
          t = std::max(t, o->t_end);
          running |= o->t_end < 0;
        }
      }
      if (!running && conn->t_closed - t > T + std::min<ns_t>(T / 2, 400 * ms)) {
        fail("H06", "stalled connection kept beyond its timeout", "ended " + std::to_string((conn->t_closed - t) / ms) + " ms after anything happened on it, request timeout " + std::to_string(T / ms) + " ms");
        return;
      }
    }
    if (conn->disturbed || harmful()) {
      return;
    }
    // first response that is due and missing
    std::size_t due = 0;
    bool ends = false, unread = false;
    for (; due < plan.size(); ++due) {
      auto& e = plan[due].e;
      if (!whole(due)) {
        break;
      }
      if (!e.response || e.optional || e.truncated) {
        ends = true;
        break;
      }
      if (due < next) {
        if (e.closes) {
          ends = true;
          ++due;
          break;
        }
        continue;
      }
      break; // due and not here
    }
    for (std::size_t i = 0; i < plan.size() && i < sent; ++i) {
      unread |= plan[i].e.closes || plan[i].e.may_close || !plan[i].e.response || plan[i].e.error_only;
    }
    if (ends) {
      // the server must end the connection
      if (!conn->server_closed && !forever) {
        fail("H04 H07", "connection kept after it had to end", "after response " + std::to_string(next) + " of " + std::to_string(plan.size()) + " (" + plan[due ? due - 1 : 0].e.what + ")");
      }
      if (!profile.cpu && conn->server_closed && fin && !tls && !forever && due > 0 && due == next && plan[due - 1].e.closes) {
        // not left to the timeout
        auto late = conn->t_closed - t_resp[due - 1];
        if (late > std::min<ns_t>(400 * ms, T < 0 ? sec : T / 2)) {
          fail("H04", "connection kept after its last response", std::to_string(late / ms) + " ms after response " + std::to_string(next) + " (" + plan[due - 1].e.what + ")");
        }
      }
      if (tls && hs_done && conn->server_closed && unprompted && !rst && !forever && due > 0 && due == next && plan[due - 1].e.closes && !timed_out(due)) {
        count("orderly_tls_ends");
        if (!close_notify) {
          fail("H09", "TLS connection ended without close_notify", "after response " + std::to_string(next) + " (" + plan[due - 1].e.what + ")");
        }
      }
      if (!profile.cpu && conn->server_closed && fin && !tls && !forever && due < plan.size() && due == next && plan[due].route == "throw") {
        for (auto& o : http_world.obs) {
          if (o->rid == plan[due].rid && o->t_end >= 0 && conn->t_closed - o->t_end > 400 * ms) {
            fail("H04 H07", "connection kept after its handler failed", std::to_string((conn->t_closed - o->t_end) / ms) + " ms after the exception (" + plan[due].e.what + ")");
          }
        }
      }
      return;
    }
    if (due >= plan.size() || !whole(due)) {
      if (conn->server_closed) {
        early_close(due);
      }
      return; // everything that was asked for has been answered
    }
    auto& e = plan[due].e;
    auto id = "request " + std::to_string(due) + "/" + std::to_string(plan.size()) + " (" + e.what + ")";
    if (forever) {
      return;
    }
    if (conn->server_closed) {
      if (rst && unread) {
        return; // closing with unread input may take responses with it
      }
      if (due > 0 && plan[due - 1].e.may_close && due == next) {
        return;
      }
      if (conn->client_gone && !fin && !rst) {
        return;
      }
      if (!timed_out(due)) {
        fail("H01 H04 H06 H07", "connection ended early", id + " got no response; closed " + std::to_string((conn->t_closed - conn->t_accepted) / ms) + " ms after accept, request timeout " + std::to_string(T / ms) + " ms");
      }
      return;
    }
    if (!tls || hs_done) {
      fail("H01 H03 H06 H07", "no response", id + ": never answered and the connection is still open");
    }
  }
  ns_t last_handler_end(std::size_t before) const
  {
    ns_t t = conn->t_accepted;
    auto T = g_run->cfg.request_timeout;
    for (std::size_t i = 0; i < before && i < plan.size(); ++i) {
      for (auto& o : http_world.obs) {
        if (o->rid == plan[i].rid && o->t_end > t) {
          if (o->t_end - t >= T) {
            return 0; // overran its time: the connection may end at any moment
          }
          t = o->t_end;
        }
      }
    }
    return t;
  }
  // the server is known to have finished the TLS handshake
  bool server_ready() const
  {
    if (next > 0) {
      return true;
    }
    for (auto& o : http_world.obs) {
      if (!plan.empty() && o->rid == plan[0].rid) {
        return true;
      }
    }
    return false;
  }
  bool timed_out(std::size_t due) const
  {
    auto T = g_run->cfg.request_timeout;
    if (tls && !server_ready() && g_run->cfg.tls_timeout >= 0 && conn->t_closed - conn->t_accepted >= g_run->cfg.tls_timeout) {
      return true;
    }
    return T >= 0 && conn->t_closed - last_handler_end(due) >= T;
  }
  // the server closed an idle (or half-sent) connection: only after the timeout
  void early_close(std::size_t due)
  {
    if (rst || conn->fin_sent || cut_done || (due > 0 && plan[due - 1].e.may_close)) {
      if (conn->fin_sent || rst || !(cut_done && cut == cut_silent)) {
        return;
      }
    }
    for (std::size_t i = 0; i < sent; ++i) {
      if (plan[i].e.may_close) {
        return;
      }
    }
    if (cut_done && due < plan.size() && plan[due].e.error_only) {
      return;
    }
    if (!timed_out(due)) {
      fail("H06 H04", "connection closed before its timeout", "after " + std::to_string(next) + " responses, " + std::to_string((conn->t_closed - last_handler_end(due)) / ms) + " ms after the last handler ended (timeout " + std::to_string(g_run->cfg.request_timeout / ms) + " ms)");
    }
  }
};

// --------------------------------------------------------------- handlers' view
void judge_observations(const std::vector<std::unique_ptr<Client>>& clients)
{
  std::map<std::string, std::pair<Client*, std::size_t>> by;
  for (auto& c : clients) {
    for (std::size_t i = 0; i < c->plan.size(); ++i) {
      if (!c->plan[i].rid.empty() && c->plan[i].rid != "bad") {
        by[c->plan[i].rid] = { c.get(), i };
      }
    }
  }
  std::map<std::string, int> runs;
  for (auto& o : http_world.obs) {
    if (o->rid == "bad") {
      if (o->has_body && o->body_ok) {
        violation("H02", "malformed body accepted", "a malformed request body reached the handler as complete: " + show(o->body));
      }
      continue;
    }
    auto it = by.find(o->rid);
    if (it == by.end()) {
      violation("H04 H01", "request nobody sent", "handler " + o->route + " ran for a request no client sent (r=" + o->rid + ", path " + show(o->path) + ")");
      continue;
    }
    auto& [c, i] = it->second;
    auto& p = c->plan[i];
    auto id = c->label + " request " + std::to_string(i) + " (" + p.e.what + ")";
    if (++runs[o->rid] > 1) {
      violation("H01", "handler ran twice", id);
    }
    if (!p.e.handler && !p.e.handler_maybe) {
      violation("H01 H05", "handler ran for a request it should not see", id + ": " + o->route);
      continue;
    }
    if (o->route != p.route) {
      violation("H01", "wrong handler", id + ": " + o->route);
    }
    if (o->method != p.rq.method) {
      violation("H01", "wrong method", id + ": " + o->method);
    }
    if (!p.params.empty() && o->params != p.params) {
      violation("H01", "wrong path parameters", id);
    }
    if (g_run->cfg.transport == HttpConfig::tcp || g_run->cfg.transport == HttpConfig::tls) {
      auto n = 0x0a000001u + static_cast<unsigned>(c->conn->id);
      auto ip = std::to_string(n >> 24) + "." + std::to_string((n >> 16) & 255) + "." + std::to_string((n >> 8) & 255) + "." + std::to_string(n & 255);
      if (o->remote != ip) {
        violation("H01", "wrong peer", id + ": " + o->remote + " instead of " + ip);
      }
    }
    // headers reach the handler unchanged
    auto want = p.rq.headers;
    for (auto& [k, v] : want) {
      bool found = false;
      for (auto& [k2, v2] : o->headers) {
        found |= http::ieq(k, k2) && v == v2;
      }
      if (!found) {
        violation("H01", "request header lost", id + ": " + k);
        break;
      }
    }
    if (o->has_body && o->body_ok) {
      if (p.e.body_never) {
        violation("H05 H02", "oversized or malformed body accepted", id + ": " + std::to_string(o->body.size()) + " bytes with limit " + std::to_string(g_run->cfg.body_limit));
      } else if (o->body != p.rq.body) {
        violation("H02", "handler saw another body", id + ": " + std::to_string(o->body.size()) + " bytes instead of " + std::to_string(p.rq.body.size()) + (c->whole(i) ? "" : " (request was cut off)"));
      } else if (!c->whole(i)) {
        violation("H02", "truncated body accepted", id);
      }
    }
  }
  for (auto& c : clients) {
    for (std::size_t i = 0; i < c->next && i < c->plan.size(); ++i) {
      if (c->plan[i].e.handler && !runs[c->plan[i].rid] && !c->bad && c->whole(i)) {
        violation("H01", "response without handler", c->label + " request " + std::to_string(i));
      }
    }
  }
}

// ------------------------------------------------------------------ scenario
void run_http(bool secure)
{
  Run run;
  g_run = &run;
  auto& cfg = run.cfg;
  if (secure) {
    deterministic_openssl();
    extra_props = "H09";
    cfg.transport = pick("cfg", 4) == 3 ? HttpConfig::tls_local : HttpConfig::tls;
  } else {
    cfg.transport = pick("cfg", 5) == 4 ? HttpConfig::local : HttpConfig::tcp;
  }
  if (pick("cfg", 3) != 0) {
    cfg.defaults = false;
    static const ns_t t[] = { 5 * sec, 1 * sec, 2 * sec, 30 * sec, -1 };
    cfg.request_timeout = t[pick("cfg", 5)];
    static const ns_t tt[] = { 3 * sec, 1 * sec, 10 * sec, -1 };
    cfg.tls_timeout = tt[pick("cfg", 4)];
    static const std::int64_t h[] = { 8192, 1024, 2000, 65536, -1 };
    cfg.header_limit = h[pick("cfg", 5)];
    static const std::int64_t b[] = { 1024 * 1024, 1000, 70000, 65536, 131072, -1 };
    cfg.body_limit = b[pick("cfg", 6)];
  }
  cfg.threads = pick("cfg", 4) == 3 ? static_cast<int>(range("cfg", 2, 3)) : 1;
  cfg.default_handler = pick("cfg", 5) == 4;
  draw_profile({
      { &Profile::split, { 100, 500, 1000 } },
      { &Profile::delay, { 100, 500, 1000 } },
      { &Profile::stall, { 20, 100 } },
      { &Profile::short_write, { 200, 900 } },
      { &Profile::short_read, { 200, 1500 } },
      { &Profile::eagain, { 300, 2000 } },
      { &Profile::eintr, { 300, 2000 } },
      { &Profile::small_sndbuf, { 300, 900 } },
      { &Profile::accept_err, { 100, 500 } },
      { &Profile::cpu, { 20, 200 } },
      { &Profile::reorder, { 100, 700 } },
      { &Profile::send_err, { 30 } },
      { &Profile::recv_err, { 30 } },
      { &Profile::thread_switch, { 100, 600 } },
  });
  bool harm = pick("cfg", 3) == 2;

  auto app = http_factory(cfg);
  if (!app->bind(PORT, SOCK)) {
    violation("H07", "bind failed", "bind() failed");
    return;
  }
  std::vector<std::unique_ptr<Client>> clients;
  auto n = range("cfg", 1, 5);
  for (std::uint32_t i = 0; i < n; ++i) {
    auto c = std::make_unique<Client>();
    c->label = "c" + std::to_string(i);
    c->st = "client/" + c->label;
    auto& st = c->st;
    c->tls = secure;
    auto m = range(st, 1, 8);
    bool budget = false;
    for (std::uint32_t k = 0; k < m && !budget; ++k) {
      auto p = make_request(st, k + 1 == m);
      budget = p.e.closes && pick(st, 3); // sometimes more follows what must not be answered
      c->plan.push_back(std::move(p));
    }
    c->mode = static_cast<Client::Mode>(pick(st, 3));
    for (std::size_t k = 0; k <= c->plan.size(); ++k) {
      ns_t g = 0;
      switch (pick(st, 6)) {
      case 0: break;
      case 1: g = range(st, 1, 1000) * us; break;
      case 2:
      case 3: g = range(st, 1, 200) * ms; break;
      case 4: g = range(st, 100, 3000) * ms; break;
      default: g = pick(st, 3) ? 0 : range(st, 2000, 8000) * ms; break;
      }
      c->gaps.push_back(g);
    }
    c->start = pick(st, 2) ? range(st, 0, 3000) * us : range(st, 0, 3000) * ms;
    c->half_close = pick(st, 6) == 5;
    c->stay = pick(st, 4) == 3;
    if (harm && pick(st, 2)) {
      c->cut = static_cast<Client::Cut>(1 + pick(st, 3));
      std::size_t total = 0;
      for (auto& p : c->plan) {
        total += p.wire().size();
      }
      c->cut_at = 1 + pick(st, static_cast<std::uint32_t>(total));
      if (secure && pick(st, 3) == 0) {
        c->tls_break = true;
        c->tls_break_at = 1 + pick(st, 600);
      }
    }
    if (pick(st, 8) == 7) {
      c->pause_at = range(st, 1, 100) * ms;
      c->pause_for = pick(st, 2) ? range(st, 1, 900) * ms : range(st, 2000, 12000) * ms;
    }
    auto* cp = c.get();
    after(c->start, [cp] { cp->go(); });
    clients.push_back(std::move(c));
  }
  auto probe_owner = std::make_unique<Client>();
  auto& probe = *probe_owner;
  probe.label = "probe";
  probe.st = "client/probe";
  probe.tls = secure;
  {
    Planned p;
    p.rid = "probe";
    p.route = "id";
    p.params = { { "a", "p" }, { "b", "q" } };
    p.rq.target = "/id/p/q?r=probe";
    p.rq.headers = { { "Host", "x" }, { "Connection", "close" } };
    p.e.body = "id|a=p|b=q";
    p.e.handler = p.e.closes = true;
    p.e.what = "probe";
    probe.plan.push_back(p);
    probe.gaps = { 0, 0 };
  }
  std::thread server([&] { app->run(); });
  if (pick("cfg", 8) == 7) {
    run.stopped_early = true;
    sleep_until(now() + range("cfg", 0, 4000) * (pick("cfg", 2) ? us * 100 : ms));
    fault("server_stopped_midway");
    app->stop();
    server.join();
    app.reset();
    for (auto& c : clients) {
      if (c->conn) {
        c->conn->pause(false);
      }
    }
    wait_idle();
  } else {
    wait_idle();
    for (auto& c : clients) {
      c->judge();
    }
    for (auto& c : clients) {
      if (c->conn) {
        c->conn->pause(false);
        c->close();
      }
    }
    wait_idle();
    profile = Profile {}; // faults stop
    if (open_conn_fds() != 0 || pending_backlog() != 0) {
      violation("H08 H06", "connection leaked", std::to_string(open_conn_fds()) + " sockets still open after every client is gone: " + open_fds_text());
    }
    if (http_world.live_handlers || http_world.live_streams) {
      violation("H08", "request state leaked", std::to_string(http_world.live_handlers) + " handlers and " + std::to_string(http_world.live_streams) + " body streams alive after every client is gone");
    }
    probe.go();
    wait_idle();
    probe.judge();
    if (!cfg.default_handler) {
      std::map<std::string, int> owed;
      int failures = 0;
      for (auto& o : http_world.obs) {
        if (!o->threw.empty()) {
          ++owed[o->threw];
        }
        failures += !o->threw.empty() || o->stream_failed;
      }
      for (auto& [text, want] : owed) {
        auto got = std::count(http_world.exception_texts.begin(), http_world.exception_texts.end(), text);
        if (got != want) {
          violation("H07", "exception not reported once", "\"" + text + "\" thrown " + std::to_string(want) + " times by handlers, reported to the exception handler " + std::to_string(got) + " times");
        }
      }
      if (http_world.exceptions < failures) {
        violation("H07", "failure not reported", std::to_string(failures) + " handlers or body streams failed, " + std::to_string(http_world.exceptions) + " failures reported to the exception handler");
      }
    }
    if (probe.next != 1) {
      violation("H07", "server no longer serves", "a fresh connection after all faults stopped got no response");
    }
    app->stop();
    server.join();
    app.reset();
  }
  if (http_world.live_handlers || http_world.live_streams) {
    violation("H08", "shutdown leaked request state", std::to_string(http_world.live_handlers) + " handlers, " + std::to_string(http_world.live_streams) + " streams alive after server and context are gone");
  }
  if (open_fds() != 0) {
    violation("H08", "shutdown leaked descriptors", open_fds_text());
  }
  if (probe.conn) {
    clients.push_back(std::move(probe_owner));
  }
  judge_observations(clients);
  std::size_t resp = 0;
  for (auto& c : clients) {
    resp += c->next;
    count("requests", c->plan.size());
  }
  count("responses", resp);
  count("connections", clients.size());
  count("handler_runs", http_world.obs.size());
  count("exceptions_reported", static_cast<std::uint64_t>(http_world.exceptions));
}

Register r1("http", [] { run_http(false); });
Register r2("https", [] { run_http(true); });
} // namespace
