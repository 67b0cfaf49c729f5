// The asynchronous logger: threads that log, writers that are slow, throw, or
// write to files on a faulty disk, and a logger that is destroyed at any time.
#include "app_log.hpp"
#include "harness.hpp"
#include <algorithm>
#include <ctime>
#include <map>
#include <thread>

namespace sim {
namespace {

const char* const level_name[] = { "TRACE", "DEBUG", "INFO", "WARNING", "ERROR", "FATAL", "UNKNOWN" };

struct Sent {
  std::string msg;
  int level, thread;
  std::uint64_t begin, end; // logical clock
  ns_t t0, t1;              // wall clock around the call
  LogPlace place;
};

bool allowed(const LogConfig& c, int level)
{
  if (level >= 6) {
    return false;
  }
  switch (c.filter) {
  case 1: return level >= c.level;
  case 2: return c.mask >> level & 1;
  case 3: {
    static const char* const names[] = { "trace", "debug", "info", "warning", "error", "fatal" };
    auto s = c.env;
    std::transform(s.begin(), s.end(), s.begin(), [](unsigned char x) { return static_cast<char>(tolower(x)); });
    for (int i = 0; i < 6; ++i) {
      if (s == names[i]) {
        return level >= i;
      }
    }
    return false;
  }
  default: return true;
  }
}

std::string line_of(const LogEvent& e, int format)
{
  auto base = e.file.substr(e.file.find_last_of("\\/") + 1);
  switch (format) {
  case 1:
    return std::string(level_name[e.level]) + "|" + e.msg + "|" + std::to_string(e.line) + "|" + std::to_string(e.column) + "|" + e.file + "|" + e.function + "\r\n";
  case 2: return e.msg + "\n";
  default: {
    std::time_t s = e.time / sec;
    std::tm tm {};
    gmtime_r(&s, &tm);
    char b[64];
    std::strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%SZ", &tm);
    return "[" + std::string(b) + " " + level_name[e.level] + " " + e.function + "] " + e.msg + " [" + base + ":" + std::to_string(e.line) + ":" + std::to_string(e.column) + "]\n";
  }
  }
}

// data is the lines in order, of which at most `torn` are cut short; with
// `more`, anything may follow
bool lines_with_torn(const std::string& data, const std::vector<std::string>& lines, unsigned torn, bool more = false)
{
  // reachable: position -> fewest torn lines
  std::map<std::size_t, unsigned> at { { 0, 0 } };
  for (auto& l : lines) {
    std::map<std::size_t, unsigned> next;
    for (auto [p, k] : at) {
      std::size_t n = 0;
      while (n < l.size() && p + n < data.size() && data[p + n] == l[n]) {
        ++n;
      }
      for (std::size_t i = 0; i <= n; ++i) {
        auto c = k + (i == l.size() ? 0U : 1U);
        if (c <= torn) {
          auto [it, fresh] = next.emplace(p + i, c);
          if (!fresh) {
            it->second = std::min(it->second, c);
          }
        }
      }
    }
    at = std::move(next);
  }
  return more ? !at.empty() : at.count(data.size()) != 0;
}

std::string join(const std::vector<std::string>& v)
{
  std::string s;
  for (auto& x : v) {
    s += x;
  }
  return s;
}

void run_log()
{
  draw_profile({
      { &Profile::cpu, { 20, 200 } },
      { &Profile::reorder, { 100, 700 } },
      { &Profile::thread_switch, { 100, 600, 900 } },
      { &Profile::clock_jump, { 20 } },
  });
  if (pick("cfg", 4)) {
    static const std::uint32_t e[] = { 0, 0, 30, 400 };
    profile.file_open_err = e[pick("cfg", 4)] / 2;
    profile.file_write_err = e[pick("cfg", 4)];
    static const std::uint32_t s[] = { 0, 200, 900 };
    profile.file_short = s[pick("cfg", 3)];
    profile.file_delay = s[pick("cfg", 3)];
  }
  auto rounds = range("cfg", 1, 2);
  std::map<std::string, std::string> before; // content a file had
  std::map<std::string, bool> vague;         // whose content is no longer known
  if (pick("cfg", 3) == 2) {
    auto ino = std::make_shared<Inode>();
    ino->data = "earlier line\n";
    fs()[fs_prefix + "/log0"] = ino;
  }
  std::uint64_t clock = 0;
  std::size_t n_sent = 0, n_kept = 0;
  for (std::uint32_t round = 0; round < rounds; ++round) {
    log_world = LogWorld {};
    stdout_data.clear();
    for (auto& [p, ino] : fs()) {
      before[p] = ino->data;
    }
    file_errors.clear();
    LogConfig c;
    c.filter = static_cast<int>(pick("cfg", 4));
    c.level = static_cast<int>(pick("cfg", 7));
    static const unsigned masks[] = { 0b1, 0b100000, 0b010101, 0b101010, 0b1000000, 0b000110 };
    c.mask = masks[pick("cfg", 6)];
    static const char* const envs[] = { "", "trace", "DEBUG", "Info", "warning", "error", "fatal", "off", "nonsense" };
    c.env = envs[pick("cfg", 9)];
    if (pick("cfg", 2)) {
      c.filter = 0;
    }
    static const std::size_t bufs[] = { 0, 0, 1, 2, 8, 1000 };
    c.buffer = bufs[pick("cfg", 6)];
    c.global = pick("cfg", 4) == 3;
    auto nw = range("cfg", 1, 3);
    std::size_t probe = pick("cfg", nw);
    ns_t worst = 0;
    bool files = false, has_out = false;
    for (std::uint32_t i = 0; i < nw; ++i) {
      LogWriterPlan p;
      auto kind = i == probe ? 0 : pick("cfg", 4);
      if (kind <= 1) {
        if (pick("cfg", 4) == 3) {
          p.fail = range("cfg", 1, 4);
          p.early = pick("cfg", 2);
        }
        if (pick("cfg", 4) == 3) {
          p.slow = range("cfg", 1, 4);
          static const ns_t waits[] = { 1 * us, 1 * ms, 100 * ms, 2 * sec, 40 * sec };
          p.wait = waits[pick("cfg", 5)];
        }
      } else if (kind == 2 || has_out) {
        p.kind = LogWriter::file;
        p.path = fs_prefix + "/log" + std::to_string(i == 2 && pick("cfg", 2) ? 1 : pick("cfg", 2));
        for (auto& o : c.writers) {
          if (o.path == p.path) {
            p.path = fs_prefix + "/log" + std::to_string(10 + i);
          }
        }
        files = true;
      } else {
        p.kind = LogWriter::out;
        files = has_out = true;
      }
      p.format = static_cast<int>(pick("cfg", 3));
      c.writers.push_back(std::move(p));
    }
    std::vector<Sent> sent;
    auto app = log_factory(c);
    auto nt = range("cfg", 1, 3);
    std::vector<std::thread> threads;
    for (std::uint32_t t = 0; t < nt; ++t) {
      threads.emplace_back([&, t] {
        auto st = "log/t" + std::to_string(t);
        auto n = pick(st, 10);
        for (std::uint32_t k = 0; k < n; ++k) {
          switch (pick(st, 5)) {
          case 0: break;
          case 1: sleep_until(now() + range(st, 1, 900) * us); break;
          case 2: sleep_until(now() + range(st, 1, 300) * ms); break;
          default: thread_yield("log");
          }
          auto msg = "m" + std::to_string(round) + "-" + std::to_string(t) + "-" + std::to_string(k);
          switch (pick(st, 6)) {
          case 0: msg += " {} {MSG} %d \\n"; break;
          case 1: msg += " two\nlines"; break;
          case 2: msg += " " + text_blob(range(st, 1, 1000), range(st, 1, 3000)); break;
          default: break;
          }
          auto lv = static_cast<int>(pick(st, 7));
          Sent s { msg, lv, static_cast<int>(t), ++clock, 0, realtime(), 0, {} };
          trace("thread %u logs %s level %d", t, show(msg).c_str(), lv);
          s.place = app->log(lv, msg);
          s.t1 = realtime();
          s.end = ++clock;
          sent.push_back(std::move(s));
        }
      });
    }
    for (auto& t : threads) {
      t.join();
    }
    switch (pick("cfg", 3)) {
    case 0: break;
    case 1: sleep_until(now() + range("cfg", 1, 2000) * 100 * us); break;
    default: wait_idle(); break;
    }
    std::size_t expect = 0;
    for (auto& s : sent) {
      expect += allowed(c, s.level);
    }
    for (auto& w : c.writers) {
      if (w.slow) {
        worst += static_cast<ns_t>(expect / w.slow) * w.wait;
      }
    }
    auto t0 = now();
    trace("destroy");
    app->destroy();
    auto took = now() - t0;
    trace("destroyed");
    bool complete = took < 30 * sec;
    auto id = "round " + std::to_string(round);
    auto slack = 5 * sec;
    if (took > 30 * sec + slack) {
      violation("L01", "destruction not bounded", id + ": destroying the logger took " + std::to_string(took / ms) + " ms");
    }
    if (!(files && profile.file_delay) && took > worst + 3 * slack) { // the scheduler may be slow, too
      violation("L01", "destruction waits for nothing", id + ": destroying the logger took " + std::to_string(took / ms) + " ms, its writers needed at most " + std::to_string(worst / ms) + " ms");
    }
    // what has been written by now counts; the rest may follow or not
    auto seen = log_world.seen;
    std::map<std::string, std::string> content;
    for (auto& [p, ino] : fs()) {
      content[p] = ino->data;
    }
    auto out = join(stdout_data);
    wait_idle();
    if (log_world.overlaps) {
      violation("L01", "writer entered twice at once", id + ": a writer was given a record before it was done with the previous one");
    }
    if (log_world.live) {
      violation("L01", "writers leaked", id + ": " + std::to_string(log_world.live) + " writers are alive after the logger is gone and all is idle");
    }
    for (auto& [p, ino] : fs()) {
      if (ino->opens) {
        violation("L01 L02", "log file left open", id + ": " + p);
      }
    }
    auto& order = seen[probe];
    for (std::size_t i = 0; i < c.writers.size(); ++i) {
      auto wid = id + " writer " + std::to_string(i);
      if (c.writers[i].kind != LogWriter::probe) {
        continue;
      }
      auto& v = seen[i];
      std::map<std::string, std::size_t> at;
      for (std::size_t k = 0; k < v.size(); ++k) {
        if (!at.emplace(v[k].msg, k).second) {
          violation("L01", "record written twice", wid + ": " + show(v[k].msg));
        }
      }
      for (auto& s : sent) {
        auto it = at.find(s.msg);
        if (!allowed(c, s.level)) {
          if (it != at.end()) {
            violation("L01", "filtered record written", wid + ": " + show(s.msg) + " of level " + level_name[s.level]);
          }
          continue;
        }
        if (it == at.end()) {
          if (complete) {
            violation("L01", "record lost", wid + ": " + show(s.msg) + " (" + std::to_string(v.size()) + " of " + std::to_string(expect) + " records written)");
          }
          continue;
        }
        ++n_kept;
        auto& e = v[it->second];
        if (e.level != s.level) {
          violation("L01", "record altered", wid + ": " + show(s.msg) + " has level " + std::to_string(e.level) + " instead of " + std::to_string(s.level));
        }
        if (!profile.clock_jump && (e.time < s.t0 || e.time > s.t1)) {
          violation("L01", "record altered", wid + ": " + show(s.msg) + " carries another time than that of its call");
        }
        if (e.file != s.place.file || e.function != s.place.function || (s.place.line && (e.line + 8 < s.place.line || e.line > s.place.line + 8))) {
          violation("L01", "record altered", wid + ": " + show(s.msg) + " carries another place than that of its call: " + e.file + ":" + std::to_string(e.line) + " " + e.function);
        }
        if (it->second >= order.size() || order[it->second].msg != s.msg) {
          // only the last one may be missing from one of them
          bool later = it->second >= order.size();
          if (!(later && !complete)) {
            violation("L01", "writers see different orders", wid + ": " + show(s.msg));
          }
        }
      }
      if (at.size() > sent.size()) {
        violation("L01", "record out of nowhere", wid + ": more records than were logged");
      }
      // order of calls that did not overlap
      for (auto& a : sent) {
        for (auto& b : sent) {
          if (a.end < b.begin) {
            auto x = at.find(a.msg), y = at.find(b.msg);
            if (y != at.end() && allowed(c, a.level) && (x == at.end() || x->second > y->second)) {
              violation("L01", "records out of order", wid + ": " + show(b.msg) + " comes before " + show(a.msg) + ", which had been logged before it");
            }
          }
        }
      }
    }
    for (std::size_t i = 0; i < c.writers.size(); ++i) {
      auto& w = c.writers[i];
      auto wid = id + " writer " + std::to_string(i);
      if (w.kind == LogWriter::probe || log_world.refused[i]) {
        continue;
      }
      count("file_logs");
      auto data = w.kind == LogWriter::file ? content[w.path] : out;
      if (w.kind == LogWriter::file) {
        auto& b = before[w.path];
        if (data.compare(0, b.size(), b) != 0) {
          violation("L02", "earlier log overwritten", wid + ": " + w.path + " no longer starts with what it held");
          continue;
        }
        data.erase(0, b.size());
      }
      std::vector<std::string> lines;
      for (auto& e : order) {
        lines.push_back(line_of(e, w.format));
      }
      auto torn = w.kind == LogWriter::file ? file_errors[w.path] : 0U;
      bool ok = lines_with_torn(data, lines, torn);
      // a logger stuck in one writer has not reached the others yet
      if (!ok && !complete) {
        auto cut = lines;
        if (!cut.empty()) {
          cut.pop_back();
        }
        ok = lines_with_torn(data, cut, torn, true);
      }
      if (!ok) {
        auto want = join(lines);
        std::size_t d = 0;
        while (d < want.size() && d < data.size() && want[d] == data[d]) {
          ++d;
        }
        violation("L02", "log file differs from the records", wid + " (" + (w.kind == LogWriter::file ? w.path : "stdout") + ", " + std::to_string(torn) + " disk errors): " + std::to_string(data.size()) + " bytes instead of " + std::to_string(want.size()) + ", from byte " + std::to_string(d) + " on " + show(data.substr(d)) + " instead of " + show(want.substr(d)));
      }
    }
    n_sent += sent.size();
    if (!complete) {
      count("destroyed_after_timeout");
    }
    app.reset();
  }
  count("records_logged", n_sent);
  count("records_written", n_kept);
  if (open_fds() != 0) {
    // descriptors of the process-wide system_context only
    count("fds_at_end", static_cast<std::uint64_t>(open_fds()));
  }
}
Register r("log", run_log);
} // namespace
} // namespace sim
