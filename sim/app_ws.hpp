// What the WebSocket scenario shares with the routes under test.
#pragma once
#include "kernel.hpp"
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace sim {
struct WsMsg {
  bool text = false;
  std::string data;
  bool operator==(const WsMsg&) const = default;
};
// One upgraded session as its callback saw it.
struct WsObs {
  std::string rid, route;
  std::vector<WsMsg> got;
  bool close_seen = false;
  std::string read_error, write_error, close_error;
  std::size_t wrote = 0;
  bool closing = false, close_ok = false;
  ns_t t_begin = 0, t_end = -1, t_err = -1, t_closing = -1, t_read = 0; // t_read: last read began
};
struct WsWorld {
  std::vector<std::unique_ptr<WsObs>> obs;
  int live = 0; // callback frames alive
  int handlers = 0;
};
extern WsWorld ws_world;

// messages pushed by the server: derived from the key, known to both sides
inline WsMsg push_msg(std::uint64_t key, std::size_t i, std::string (*textgen)(std::uint64_t, std::size_t), std::string (*bingen)(std::uint64_t, std::size_t))
{
  std::uint64_t x = (key * 1000003 + i + 1) * 0x9E3779B97F4A7C15ull;
  static const std::size_t sizes[] = { 0, 1, 5, 125, 126, 127, 1000, 4096, 4097, 20000, 65535, 65536, 70000 };
  auto n = sizes[(x >> 40) % 13];
  WsMsg m;
  m.text = (x >> 20) & 1;
  m.data = m.text ? textgen(x, n) : bingen(x, n);
  return m;
}
} // namespace sim
