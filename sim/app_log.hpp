// What the log scenario knows about the logger under test.
// Free of Boost and fitoria so that it does not depend on /repo.
#pragma once
#include "kernel.hpp"
#include <memory>
#include <string>
#include <vector>

namespace sim {

enum class LogWriter { probe, file, out };
struct LogWriterPlan {
  LogWriter kind = LogWriter::probe;
  std::uint32_t fail = 0;  // probe: throws after one record in `fail`
  std::uint32_t slow = 0;  // probe: waits before one record in `slow`
  ns_t wait = 0;           // ... for this long
  bool early = false;      // ... throws before it waits
  std::string path;        // file
  int format = 0;          // index into log_formats
};
struct LogConfig {
  int filter = 0;          // 0 default, 1 at_least(level), 2 exactly the levels of mask, 3 from_env
  int level = 0;
  unsigned mask = 0;
  std::string env;         // CPP_LOG ("" unset)
  std::size_t buffer = 0;
  bool global = false;     // through the registry and log::info etc.
  std::vector<LogWriterPlan> writers;
};
struct LogEvent {
  std::string msg;
  int level;
  ns_t time;               // record's time, ns since epoch
  std::uint32_t line, column;
  std::string file, function;
  bool failed;
};
struct LogWorld {
  std::vector<std::vector<LogEvent>> seen; // by writer (probes)
  std::vector<bool> refused;               // by writer: could not be created
  int in_write = 0, overlaps = 0;
  int live = 0;                            // writer objects alive
};
extern LogWorld log_world;

struct LogPlace {
  std::uint32_t line, column;
  std::string file, function;
};
struct LogApp {
  virtual ~LogApp() = default;
  // returns where the record says it was logged
  virtual LogPlace log(int level, const std::string& msg) = 0;
  virtual void destroy() = 0;
};
extern std::unique_ptr<LogApp> (*log_factory)(const LogConfig&);

} // namespace sim
