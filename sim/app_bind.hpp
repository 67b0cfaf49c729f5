// What the binding scenario knows about the servers under test.
#pragma once
#include "kernel.hpp"
#include <memory>
#include <string>
#include <vector>

namespace sim {
struct BindConfig {
  int backlog = -1; // -1: leave the builder's default alone
  int threads = 1;
};
struct BindResult {
  bool ok = false;
  bool self = false; // the result refers to the server itself
  int error = 0;
  std::string text; // of the error
  std::string threw;
};
enum class BindKind { tcp, tls, local, tls_local };

struct BindApp {
  virtual ~BindApp() = default; // destroys server, then context
  virtual BindResult bind(BindKind kind, const std::string& addr, std::uint16_t port) = 0;
  virtual int max_listen_connections() = 0;
  virtual void run() = 0; // returns after stop()
  virtual void stop() = 0;
};
struct BindWorld {
  int live = 0;          // handlers alive
  std::vector<std::string> exceptions;
};
extern BindWorld bind_world;
using BindFactory = std::unique_ptr<BindApp> (*)(const BindConfig&);
extern BindFactory bind_factory;
} // namespace sim
