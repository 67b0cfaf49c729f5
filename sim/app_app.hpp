// What the application scenarios (files, codec, app) know about their server.
// Free of Boost and fitoria so that it does not depend on /repo.
#pragma once
#include "app_http.hpp"
#include <map>

namespace sim {

// What a handler of an application route saw.
struct AppObs {
  std::string rid, route, value;
  std::vector<std::pair<std::string, std::string>> kv;
  bool has_body = false, body_ok = false;
  std::string body, err;
};
struct AppLog {
  int level;
  std::string msg, file;
};
struct AppWorld {
  std::vector<AppLog> log;                                // written by the default logger
  std::vector<std::unique_ptr<AppObs>> obs;
  std::map<std::string, std::vector<std::string>> events; // middleware trail by rid
  int live = 0;                                           // handler and middleware frames
  AppObs& add(const std::string& rid, const std::string& route)
  {
    obs.push_back(std::make_unique<AppObs>());
    obs.back()->rid = rid;
    obs.back()->route = route;
    return *obs.back();
  }
};
extern AppWorld app_world;

struct RoutePlan {
  int pattern; // index into route_patterns
  int verb;    // index into route_verbs, 0: any
};
struct AppConfig {
  int threads = 1;
  int logging = 0; // 0: no default logger, 1: one that writes everything, 2: errors only
  std::int64_t body_limit = 8 * 1024 * 1024;
  std::vector<RoutePlan> routes; // registered in this order
  std::vector<int> failed_routes; // set by the server: refused as duplicates
};
extern AppConfig app_config;

inline const char* const route_verbs[] = { "", "GET", "POST", "PUT", "DELETE", "PATCH" };
// keep in step with apps/app_routes.cpp
inline const char* const route_patterns[] = {
  "/rt", "/rt/", "/rt/a", "/rt/ab", "/rt/abc", "/rt/abd", "/rt/b", "/rt/a/", "/rt/a/b", "/rt/ab/c",
  "/rt/{p}", "/rt/{p}/", "/rt/{p}/b", "/rt/a/{q}", "/rt/ab/{q}", "/rt/{p}/{q}", "/rt/a/{q}/c", "/rt/{p}/b/c",
  "/rt/#rest", "/rt/a/#rest", "/rt/{p}/#rest", "/rt/ab#rest",
  "/rt/a.c", "/rt/a+b", "/rt/(x)", "/rt/a*", "/rt/x$y", "/rt/login", "/rt/logout", "/rt/log",
  "/rt/a.c/{q}", "/rt/(x)/{q}", "/rt/a+b/{q}", "/rt/x$y/{q}/a*", "/rt/a.c/#rest", "/rt/log/{q}", "/rt/{q}/x/{p}", "/rt/{p}/b/{q}/c", "/rt/{one}/{two}/{three}/{four}", "/rt/a/b/c/d/e", "/rt/a/b/{x}/d/e", "/rt/~-_!,;=:@",
};
inline constexpr int n_route_patterns = sizeof route_patterns / sizeof *route_patterns;

// what the routes under /y answer; in step with apps/app_y.cpp
inline const int y_statuses[] = {
  200, 201, 202, 203, 204, 205, 206, 207, 208, 226, 300, 301, 302, 303, 304, 305, 307, 308,
  400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451,
  500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511,
};
inline constexpr std::size_t n_y_statuses = sizeof y_statuses / sizeof *y_statuses;
// the same header may have several spellings
inline const char* const y_names[] = { "Content-Type", "content-type", "CONTENT-TYPE", "Set-Cookie", "set-cookie", "X-One", "x-one", "X-ONE", "X-Two", "Location", "location" };
inline constexpr int n_y_names = sizeof y_names / sizeof *y_names;

// pieces of the body compressed by /cz, shared by server and model
inline std::vector<std::size_t> code_pieces(std::uint64_t key, std::size_t n, int mode)
{
  if (mode == 0) {
    return n ? std::vector<std::size_t> { n } : std::vector<std::size_t> {};
  }
  return gen_pieces(key, n, mode == 2);
}

using AppFactory = std::unique_ptr<HttpApp> (*)();
extern AppFactory app_factory;

} // namespace sim
