// The logger of fitoria with probe, file and stdout writers.
#include "../sim/app_log.hpp"
#include <fitoria/core/net.hpp>
#include <fitoria/log.hpp>
#include <fitoria/log/async_stdout_writer.hpp>
#include <fitoria/log/async_stream_file_writer.hpp>

namespace sim {
LogWorld log_world;
std::unique_ptr<LogApp> (*log_factory)(const LogConfig&);

namespace {
namespace f = fitoria;
namespace l = fitoria::log;

struct Probe final : l::async_writer {
  std::size_t index;
  LogWriterPlan plan;
  std::size_t n = 0;
  int busy = 0;
  Probe(std::size_t i, LogWriterPlan p)
      : index(i)
      , plan(std::move(p))
  {
    ++log_world.live;
  }
  ~Probe() override { --log_world.live; }
  auto async_write(l::record_ptr rec) -> l::awaitable<void> override
  {
    if (++busy > 1) {
      ++log_world.overlaps;
    }
    struct Leave {
      int& b;
      ~Leave() { --b; }
    } leave { busy };
    auto k = ++n;
    bool bad = plan.fail && k % plan.fail == 0;
    log_world.seen[index].push_back({ rec->msg, static_cast<int>(rec->lv), std::chrono::duration_cast<std::chrono::nanoseconds>(rec->time.time_since_epoch()).count(), rec->line, rec->column,
        std::string(rec->file_name), std::string(rec->function_name), bad });
    trace("writer %zu: %s", index, rec->msg.c_str());
    if (bad && plan.early) {
      fault("log_writer_throws");
      throw 7; // NOLINT: anything may be thrown
    }
    if (plan.slow && k % plan.slow == 0) {
      fault("log_writer_slow");
      auto timer = boost::asio::basic_waitable_timer<std::chrono::steady_clock, boost::asio::wait_traits<std::chrono::steady_clock>, l::executor_type>(co_await boost::asio::this_coro::executor);
      timer.expires_after(std::chrono::nanoseconds(plan.wait));
      (void)co_await timer.async_wait(l::use_awaitable);
    }
    if (bad) {
      fault("log_writer_throws");
      throw std::runtime_error("writer");
    }
  }
};

auto make_filter(const LogConfig& c) -> l::filter
{
  switch (c.filter) {
  case 1: return l::filter::at_least(static_cast<l::level>(c.level));
  case 2: {
    // filters are made from a list only; chosen among a few
    switch (c.mask) {
    case 0b1: return { l::level::trace };
    case 0b100000: return { l::level::fatal };
    case 0b010101: return { l::level::trace, l::level::info, l::level::error };
    case 0b101010: return { l::level::debug, l::level::warning, l::level::fatal };
    case 0b1000000: return { l::level::off };
    default: return { l::level::info, l::level::info, l::level::debug };
    }
  }
  case 3:
    if (c.env.empty()) {
      ::unsetenv("CPP_LOG");
    } else {
      ::setenv("CPP_LOG", c.env.c_str(), 1);
    }
    return l::filter::from_env();
  default: return l::filter::all();
  }
}
auto make_formatter(int i) -> l::formatter
{
  switch (i) {
  case 1: return l::formatter::builder().set_pattern("{LV:}|{MSG:}|{LINE:}|{COL:}|{FILE:}|{FUNC:}").set_newline_style(l::newline_style::crlf).set_file_name_style(l::file_name_style::full_path).build();
  case 2: return l::formatter::builder().set_pattern("{MSG:}").build();
  default: return l::formatter::builder().build();
  }
}
LogPlace place_of(const f::source_location& loc) { return { loc.line(), loc.column(), loc.file_name(), loc.function_name() }; }

struct App final : LogApp {
  LogConfig cfg;
  std::shared_ptr<l::async_logger> logger;
  explicit App(const LogConfig& c)
      : cfg(c)
  {
    auto b = l::async_logger::builder();
    if (c.filter) {
      b.set_filter(make_filter(c));
    }
    b.set_max_buffer_size(c.buffer);
    logger = b.build();
    log_world.seen.resize(c.writers.size());
    log_world.refused.resize(c.writers.size());
    for (std::size_t i = 0; i < c.writers.size(); ++i) {
      auto& p = c.writers[i];
      try {
        if (p.kind == LogWriter::probe) {
          logger->add_writer(std::make_shared<Probe>(i, p));
        } else {
          auto fw = p.kind == LogWriter::file ? l::make_async_stream_file_writer(p.path) : l::make_async_stdout_writer();
          fw->set_formatter(make_formatter(p.format));
          logger->add_writer(fw);
        }
      } catch (const std::exception&) {
        log_world.refused[i] = true;
      }
    }
    if (c.global) {
      l::registry::global().set_default_logger(std::move(logger));
    }
  }
  LogPlace log(int level, const std::string& msg) override
  {
    if (cfg.global) {
      // the position is the one of the call below
      auto here = f::source_location::current();
      switch (level) {
      case 0: l::trace("{}", msg); break;
      case 1: l::debug("{}", msg); break;
      case 2: l::info("{}", msg); break;
      case 3: l::warning("{}", msg); break;
      case 4: l::error("{}", msg); break;
      case 5: l::fatal("{}", msg); break;
      default: l::log(static_cast<l::level>(level), "{}", msg); break;
      }
      auto p = place_of(here);
      p.line = p.column = 0;
      return p;
    }
    auto loc = f::source_location::current();
    logger->log(loc, static_cast<l::level>(level), "{}", msg);
    return place_of(loc);
  }
  void destroy() override
  {
    if (cfg.global) {
      l::registry::global().set_default_logger(nullptr);
    } else {
      logger.reset();
    }
  }
};
}
[[maybe_unused]] const bool log_registered = (log_factory = [](const LogConfig& c) -> std::unique_ptr<LogApp> { return std::make_unique<App>(c); }, true);
}
