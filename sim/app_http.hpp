// What the HTTP scenario knows about the server under test. Free of Boost and
// fitoria so that it does not depend on /repo.
#pragma once
#include "kernel.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

namespace sim {

struct HttpConfig {
  enum Transport { tcp, local, tls, tls_local } transport = tcp;
  ns_t request_timeout = 5 * sec; // -1: none
  ns_t tls_timeout = 3 * sec;     // -1: none
  std::int64_t header_limit = 8192; // -1: none
  std::int64_t body_limit = 1024 * 1024; // -1: none
  int threads = 1;
  bool defaults = true; // leave the builder's defaults alone
  bool default_handler = false; // leave the exception handler alone, too
};

// What a handler saw of one request.
struct Obs {
  std::string rid;      // query parameter r
  std::string route;    // which handler
  std::string method;
  std::string remote;
  std::vector<std::pair<std::string, std::string>> params, query, headers;
  std::string path;     // decoded path as given to the handler
  bool has_body = false, body_ok = false;
  std::string body_error;
  std::string body;
  ns_t t_begin = 0, t_end = -1;
  std::string threw; // left by an exception, text as the exception handler must see it
  bool stream_failed = false; // its response body stream failed
};

struct HttpWorld {
  std::vector<std::unique_ptr<Obs>> obs;
  int exceptions = 0;        // reported to the exception handler
  std::vector<std::string> exception_texts;
  int live_streams = 0;      // response body streams alive
  int live_handlers = 0;     // handler frames alive
};
extern HttpWorld http_world;

// chunk plan shared by server and model: sizes of the pieces of /gen bodies
inline std::vector<std::size_t> gen_pieces(std::uint64_t key, std::size_t n, bool with_empty)
{
  std::vector<std::size_t> v;
  std::uint64_t x = key * 2654435761u + 12345;
  while (n) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    if (with_empty && (x >> 60) % 4 == 0) {
      v.push_back(0);
    }
    std::size_t m = (x >> 33) % 3 == 0 ? 1 + (x >> 35) % 7 : 1 + (x >> 35) % 5000;
    m = m < n ? m : n;
    v.push_back(m);
    n -= m;
  }
  if (with_empty && (key & 1)) {
    v.push_back(0);
  }
  return v;
}

struct HttpApp {
  virtual ~HttpApp() = default; // destroys server, then context
  virtual bool bind(std::uint16_t port, const std::string& path) = 0;
  virtual void run() = 0; // returns after stop()
  virtual void stop() = 0;
};
// registered by apps/http.cpp and apps/tls.cpp
using HttpFactory = std::unique_ptr<HttpApp> (*)(const HttpConfig&);
extern HttpFactory http_factory;

} // namespace sim
