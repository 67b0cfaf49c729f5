// Routes of the server under test are registered by several translation units.
#pragma once
#include "../sim/harness.hpp"
#include <fitoria/web/http_server.hpp>
#include <vector>

namespace sim::app {
using RouteAdder = void (*)(fitoria::web::http_server::builder&);
inline std::vector<RouteAdder>& route_adders()
{
  static std::vector<RouteAdder> v;
  return v;
}
}
