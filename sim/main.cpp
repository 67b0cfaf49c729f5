// Runs scenarios: one forked child per seed; on a violation confirms,
// minimises and writes the replay file.
#include "harness.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
#define SIM_ASAN 1
#endif
#endif

namespace sim {
std::vector<Violation> violations;
std::string focus, tier = "quick", extra_props;
std::vector<Scenario>& scenarios()
{
  static std::vector<Scenario> s;
  return s;
}
void violation(const std::string& props, const std::string& category, const std::string& message)
{
  Violation v;
  std::istringstream is(props + " " + extra_props);
  for (std::string p; is >> p;) {
    v.props.push_back(p);
  }
  v.category = category;
  v.message = message;
  trace("VIOLATION %s: %s", category.c_str(), message.substr(0, 300).c_str());
  violations.push_back(std::move(v));
}
void draw_profile(std::initializer_list<std::pair<std::uint32_t Profile::*, std::vector<std::uint32_t>>> kinds)
{
  if (pick("profile", 4) == 0) {
    count("config_fault_free");
    return;
  }
  count("config_faulty");
  for (auto& [m, levels] : kinds) {
    auto k = pick("profile", static_cast<std::uint32_t>(2 * levels.size()));
    if (k >= levels.size()) {
      profile.*m = levels[k - levels.size()];
    }
  }
}
std::string show(std::string_view s, std::size_t max)
{
  std::string o;
  for (unsigned char c : s.substr(0, max)) {
    if (c >= 32 && c < 127) {
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c == '\r') {
      o += "\\r";
    } else {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    }
  }
  if (s.size() > max) {
    o += "...(" + std::to_string(s.size()) + ")";
  }
  return o;
}
std::uint64_t hash_bytes(std::string_view s)
{
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ull;
  }
  return h;
}
static std::uint64_t mixk(std::uint64_t& x)
{
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
std::string blob(std::uint64_t key, std::size_t n)
{
  std::string s(n, 0);
  std::uint64_t k = key * 7919 + 17, v = 0;
  for (std::size_t i = 0; i < n; ++i) {
    if (i % 8 == 0) {
      v = mixk(k);
    }
    s[i] = static_cast<char>(v >> (8 * (i % 8)));
  }
  return s;
}
std::string text_blob(std::uint64_t key, std::size_t n)
{
  auto s = blob(key, n);
  for (auto& c : s) {
    c = "abcdefghijklmnopqrstuvwxyz012345"[static_cast<unsigned char>(c) & 31];
  }
  return s;
}
} // namespace sim

using namespace sim;

namespace {

using Streams = std::map<std::string, std::vector<std::uint32_t>>;

struct Result {
  bool crashed = false;
  bool known = false;
  std::string crash; // category
  std::string err;   // stderr excerpt
  std::vector<Violation> v;
  std::uint64_t hash = 0, sched = 0, steps = 0;
  ns_t simns = 0;
  std::map<std::string, std::uint64_t> faults, counters;
  Streams streams;
  std::vector<std::string> trace;
};

void put(std::string& o, std::uint64_t v) { o.append(reinterpret_cast<const char*>(&v), 8); }
void put(std::string& o, const std::string& s)
{
  put(o, s.size());
  o += s;
}
struct In {
  const std::string& s;
  std::size_t p = 0;
  std::uint64_t num()
  {
    std::uint64_t v = 0;
    if (p + 8 <= s.size()) {
      memcpy(&v, s.data() + p, 8);
    }
    p += 8;
    return v;
  }
  std::string str()
  {
    auto n = num();
    if (p > s.size() || n > s.size() - p) {
      p = s.size() + 1;
      return {};
    }
    auto r = s.substr(p, n);
    p += n;
    return r;
  }
};

int g_out = -1;
bool g_want_streams = false;

void dump_result(const char* crash)
{
  static bool done = false;
  if (done || g_out < 0) {
    return;
  }
  done = true;
  std::string o;
  put(o, std::string(crash ? crash : ""));
  put(o, violations.size());
  for (auto& v : violations) {
    std::string p;
    for (auto& x : v.props) {
      p += x + " ";
    }
    put(o, p);
    put(o, v.category);
    put(o, v.message);
  }
  put(o, trace_hash);
  put(o, sched_hash);
  put(o, step_count);
  put(o, static_cast<std::uint64_t>(now() - 1000 * sec));
  put(o, faults.size());
  for (auto& [k, n] : faults) {
    put(o, k);
    put(o, n);
  }
  put(o, counters.size());
  for (auto& [k, n] : counters) {
    put(o, k);
    put(o, n);
  }
  if (g_want_streams) {
    put(o, choices.streams.size());
    for (auto& [k, s] : choices.streams) {
      put(o, k);
      auto n = choices.replay ? std::min(s.pos, s.rec.size()) : s.rec.size();
      put(o, n);
      o.append(reinterpret_cast<const char*>(s.rec.data()), n * 4);
    }
  } else {
    put(o, 0);
  }
  put(o, trace_lines.size());
  for (auto& l : trace_lines) {
    put(o, l);
  }
  put(o, std::string("end"));
  sim::stop();
  const char* p = o.data();
  std::size_t n = o.size();
  while (n) {
    ssize_t k = ::write(g_out, p, n);
    if (k < 0 && errno == EINTR) {
      continue;
    }
    if (k <= 0) {
      break;
    }
    p += k;
    n -= static_cast<std::size_t>(k);
  }
  ::close(g_out);
}

void on_death() { dump_result("memory error or abort"); }
void on_sig(int s)
{
  dump_result(s == SIGALRM ? "hang" : "crash");
  _exit(98);
}

[[noreturn]] void child(const Scenario& sc, std::uint64_t seed, const Streams* replay, bool want_trace, int errfd)
{
  dup2(errfd, 2);
  g_want_streams = true;
#ifdef SIM_ASAN
  __sanitizer_set_death_callback(on_death);
#else
  for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) {
    signal(s, on_sig);
  }
#endif
  signal(SIGABRT, on_sig);
  signal(SIGALRM, on_sig);
  on_hang = [] { dump_result("hang"); };
  alarm(120);
  sim::start(seed);
  trace_on = want_trace;
  if (replay) {
    choices.replay = true;
    for (auto& [k, v] : *replay) {
      choices.get(k).rec = v;
    }
  }
  sc.run();
  dump_result(nullptr);
  _exit(0);
}

double wall()
{
  timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) / 1e9;
}

Result run(const Scenario& sc, std::uint64_t seed, const Streams* replay = nullptr, bool want_trace = false)
{
  int pfd[2];
  if (pipe(pfd)) {
    perror("pipe");
    exit(2);
  }
  int errfd = static_cast<int>(memfd_create("err", 0));
  pid_t pid = fork();
  if (pid == 0) {
    ::close(pfd[0]);
    g_out = pfd[1];
    child(sc, seed, replay, want_trace, errfd);
  }
  ::close(pfd[1]);
  std::string data;
  char buf[65536];
  for (;;) {
    ssize_t k = ::read(pfd[0], buf, sizeof buf);
    if (k < 0 && errno == EINTR) {
      continue;
    }
    if (k <= 0) {
      break;
    }
    data.append(buf, static_cast<std::size_t>(k));
  }
  ::close(pfd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Result r;
  In in { data };
  r.crash = in.str();
  auto nv = in.num();
  for (std::uint64_t i = 0; i < nv && in.p < data.size(); ++i) {
    Violation v;
    std::istringstream is(in.str());
    for (std::string p; is >> p;) {
      v.props.push_back(p);
    }
    v.category = in.str();
    v.message = in.str();
    r.v.push_back(v);
  }
  r.hash = in.num();
  r.sched = in.num();
  r.steps = in.num();
  r.simns = static_cast<ns_t>(in.num());
  for (auto n = in.num(); n-- && in.p < data.size();) {
    auto k = in.str();
    r.faults[k] = in.num();
  }
  for (auto n = in.num(); n-- && in.p < data.size();) {
    auto k = in.str();
    r.counters[k] = in.num();
  }
  for (auto n = in.num(); n-- && in.p < data.size();) {
    auto k = in.str();
    auto m = in.num();
    if (in.p > data.size() || m * 4 > data.size() - in.p) {
      break;
    }
    std::vector<std::uint32_t> v(m);
    memcpy(v.data(), data.data() + in.p, m * 4);
    in.p += m * 4;
    r.streams[k] = std::move(v);
  }
  for (auto n = in.num(); n-- && in.p < data.size();) {
    r.trace.push_back(in.str());
  }
  bool clean = in.str() == "end" && WIFEXITED(st) && WEXITSTATUS(st) == 0 && r.crash.empty();
  if (!clean) {
    r.crashed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
      r.crash = "hang";
    } else if (r.crash.empty()) {
      r.crash = WIFSIGNALED(st) ? std::string("killed by signal ") + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
    }
    off_t len = lseek(errfd, 0, SEEK_END);
    std::string e(static_cast<std::size_t>(std::min<off_t>(len, 20000)), 0);
    if (pread(errfd, e.data(), e.size(), 0) >= 0) {
      r.err = e;
    }
  }
  ::close(errfd);
  return r;
}

// findings on record: category and a part of the message
std::vector<std::pair<std::string, std::string>> g_known;

// the violation of the focused property, if any
const Violation* hit(Result& r)
{
  if (r.crashed && std::none_of(r.v.begin(), r.v.end(), [](auto& v) { return v.category == "crash"; })) {
    Violation v;
    v.props = { focus };
    v.category = "crash";
    std::string first;
    std::istringstream is(r.err);
    for (std::string l; std::getline(is, l);) {
      if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("SIM-HANG") != std::string::npos
          || l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos
          || l.find("runtime error") != std::string::npos || l.find("Assert") != std::string::npos) {
        first += l + " ";
        if (first.size() > 200) {
          break;
        }
      }
    }
    v.message = r.crash + ": " + (first.empty() ? r.err.substr(0, 200) : first);
    r.v.push_back(v);
  }
  for (auto& v : r.v) {
    bool known = false;
    for (auto& [cat, text] : g_known) {
      known |= v.category == cat && v.message.find(text) != std::string::npos;
    }
    if (known) {
      r.known = true;
      continue;
    }
    for (auto& p : v.props) {
      if (p == focus || focus.empty() || focus == "ALL") {
        return &v;
      }
    }
  }
  return nullptr;
}

std::uint64_t weight(const Streams& s)
{
  std::uint64_t n = 0;
  for (auto& [k, v] : s) {
    for (auto x : v) {
      n += x != 0;
    }
  }
  return n;
}

Streams minimise(const Scenario& sc, std::uint64_t seed, Streams cur, const std::string& cat, double budget_s, int& runs)
{
  double end = wall() + budget_s;
  auto ok = [&](Streams& cand) {
    if (wall() > end) {
      return false;
    }
    ++runs;
    auto r = run(sc, seed, &cand);
    auto* v = hit(r);
    if (v && v->category == cat) {
      cand = r.streams; // only what was consumed
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && wall() < end) {
    progress = false;
    // whole streams
    std::vector<std::string> names;
    for (auto& [k, v] : cur) {
      names.push_back(k);
    }
    std::sort(names.begin(), names.end(), [&](auto& a, auto& b) { return cur[a].size() > cur[b].size(); });
    for (auto& k : names) {
      if (std::all_of(cur[k].begin(), cur[k].end(), [](auto x) { return x == 0; })) {
        continue;
      }
      auto c = cur;
      c[k].clear();
      if (ok(c)) {
        cur = c;
        progress = true;
      }
    }
    // blocks inside streams
    for (auto& k : names) {
      for (std::size_t bs = std::max<std::size_t>(cur[k].size() / 2, 1); bs >= 1; bs /= 2) {
        for (std::size_t i = 0; i < cur[k].size() && wall() < end; i += bs) {
          bool any = false;
          auto e = std::min(i + bs, cur[k].size());
          for (auto j = i; j < e; ++j) {
            any |= cur[k][j] != 0;
          }
          if (!any) {
            continue;
          }
          auto c = cur;
          std::fill(c[k].begin() + static_cast<long>(i), c[k].begin() + static_cast<long>(e), 0);
          if (ok(c)) {
            cur = c;
            progress = true;
          } else if (bs == 1 && cur[k][i] > 1) {
            c = cur;
            c[k][i] /= 2;
            if (ok(c)) {
              cur = c;
              progress = true;
            }
          }
        }
        if (bs == 1) {
          break;
        }
      }
    }
  }
  return cur;
}

std::string jstr(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o + "\"";
}

void write_replay(const std::string& path, const Scenario& sc, std::uint64_t seed, const Streams& s, const Violation& v, const Result& r)
{
  std::ofstream f(path);
  f << "fitoria-sim-replay 1\n";
  f << "property " << focus << "\n";
  f << "scenario " << sc.name << "\n";
  f << "seed " << seed << "\n";
  f << "tier " << tier << "\n";
  f << "category " << v.category << "\n";
  char h[32];
  snprintf(h, sizeof h, "%016llx", (unsigned long long)r.hash);
  f << "hash " << h << "\n";
  for (auto& [k, x] : s) {
    auto n = x.size();
    while (n && x[n - 1] == 0) {
      --n;
    }
    if (!n) {
      continue;
    }
    f << "stream " << k << " " << n;
    for (std::size_t i = 0; i < n; ++i) {
      f << " " << x[i];
    }
    f << "\n";
  }
  f << "end\n\n# " << show(v.message, 1000) << "\n# schedule and fault trace of the minimised run\n";
  for (auto& l : r.trace) {
    f << "# " << l << "\n";
  }
  if (!r.err.empty()) {
    std::istringstream is(r.err);
    f << "# stderr\n";
    for (std::string l; std::getline(is, l);) {
      f << "# " << l.substr(0, 200) << "\n";
    }
  }
}

} // namespace

// Assertions inside Boost. One of them (basic_parser::parse_chunk_header,
// re-entered with a partial last chunk) is wrong and harmless in release
// builds, where it is compiled out.
namespace boost {
void assertion_failed_msg(char const* expr, char const* msg, char const* function, char const* file, long line)
{
  if (std::string_view(expr) == "n >= 5" && std::string_view(file).find("basic_parser.ipp") != std::string_view::npos) {
    return;
  }
  fprintf(stderr, "%s:%ld: %s: assertion '%s' failed %s\n", file, line, function, expr, msg);
  abort();
}
void assertion_failed(char const* expr, char const* function, char const* file, long line) { assertion_failed_msg(expr, "", function, file, line); }
}

int main(int argc, char** argv)
{
  // PTRACE/ASLR do not matter: nothing depends on addresses.
  std::string scen, out, replay, replay_dir = ".";
  std::uint64_t first = 1, n = 1, stride = 1;
  double seconds = 1e9, min_seconds = 40;
  bool want_trace = false, list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--scenario") {
      scen = val();
    } else if (a == "--focus") {
      focus = val();
    } else if (a == "--first") {
      first = std::stoull(val());
    } else if (a == "--runs") {
      n = std::stoull(val());
    } else if (a == "--stride") {
      stride = std::stoull(val());
    } else if (a == "--seconds") {
      seconds = std::stod(val());
    } else if (a == "--minimise-seconds") {
      min_seconds = std::stod(val());
    } else if (a == "--out") {
      out = val();
    } else if (a == "--replay") {
      replay = val();
    } else if (a == "--replay-dir") {
      replay_dir = val();
    } else if (a == "--tier") {
      tier = val();
    } else if (a == "--known") {
      auto c = val();
      g_known.emplace_back(c, val());
    } else if (a == "--trace") {
      want_trace = true;
    } else if (a == "--list") {
      list = true;
    }
  }
  if (list) {
    for (auto& s : scenarios()) {
      printf("%s\n", s.name.c_str());
    }
    return 0;
  }
  signal(SIGPIPE, SIG_IGN);

  Streams rs;
  std::string want_cat, want_hash;
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string line;
    while (std::getline(f, line) && line != "end") {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "property") {
        is >> focus;
      } else if (k == "scenario") {
        is >> scen;
      } else if (k == "seed") {
        is >> first;
      } else if (k == "tier") {
        is >> tier;
      } else if (k == "category") {
        std::getline(is, want_cat);
        want_cat.erase(0, 1);
      } else if (k == "hash") {
        is >> want_hash;
      } else if (k == "stream") {
        std::string name;
        std::size_t c;
        is >> name >> c;
        auto& v = rs[name];
        v.resize(c);
        for (auto& x : v) {
          is >> x;
        }
      }
    }
  }
  const Scenario* sc = nullptr;
  for (auto& s : scenarios()) {
    if (s.name == scen) {
      sc = &s;
    }
  }
  if (!sc) {
    fprintf(stderr, "no scenario %s\n", scen.c_str());
    return 2;
  }

  if (!replay.empty()) {
    auto r = run(*sc, first, &rs, want_trace);
    auto* v = hit(r);
    for (auto& l : r.trace) {
      printf("%s\n", l.c_str());
    }
    char h[32];
    snprintf(h, sizeof h, "%016llx", (unsigned long long)r.hash);
    bool same = v && (want_cat.empty() || v->category == want_cat) && (r.crashed || want_hash.empty() || want_hash == h);
    printf("replay %s: %s hash %s%s\n", v ? "VIOLATES" : "ok", v ? (v->category + ": " + v->message).c_str() : "", h,
           v ? (same ? " (same as recorded)" : " (differs from the recorded run)") : "");
    return v ? (same ? 1 : 3) : 0;
  }

  double t0 = wall();
  std::uint64_t runs = 0, det_checks = 0, det_bad = 0;
  std::string det_seeds;
  std::uint64_t known_runs = 0;
  long double simns = 0;
  std::uint64_t steps = 0;
  std::map<std::string, std::uint64_t> fsum, csum;
  std::map<std::string, std::uint64_t> fruns;
  std::set<std::uint64_t> scheds;
  std::vector<std::string> vjson;
  std::set<std::string> cats;
  for (std::uint64_t i = 0; i < n && wall() - t0 < seconds; ++i) {
    std::uint64_t seed = first + i * stride;
    auto r = run(*sc, seed, nullptr, want_trace);
    ++runs;
    simns += static_cast<long double>(r.simns);
    steps += r.steps;
    for (auto& [k, x] : r.faults) {
      fsum[k] += x;
      ++fruns[k];
    }
    for (auto& [k, x] : r.counters) {
      csum[k] += x;
    }
    if (!r.faults.empty()) {
      scheds.insert(r.sched);
    }
    if (want_trace) {
      for (auto& l : r.trace) {
        printf("%s\n", l.c_str());
      }
      if (r.crashed) {
        printf("%s\n", r.err.c_str());
      }
      for (auto& v : r.v) {
        std::string p;
        for (auto& x : v.props) {
          p += x + " ";
        }
        printf("seed %llu VIOLATION [%s] %s: %s\n", (unsigned long long)seed, p.c_str(), v.category.c_str(), v.message.c_str());
      }
    }
    if (i % 64 == 7) {
      ++det_checks;
      auto r2 = run(*sc, seed, &r.streams);
      if (r2.hash != r.hash && !r.crashed) {
        ++det_bad;
        det_seeds += " " + std::to_string(seed);
        fprintf(stderr, "seed %llu: recorded choices do not reproduce the run\n", (unsigned long long)seed);
      }
    }
    auto* v = hit(r);
    known_runs += r.known;
    if (v && cats.insert(v->category).second && cats.size() <= 6) {
      Violation vv = *v;
      // same seed twice, then minimise
      auto r2 = run(*sc, seed);
      auto* v2 = hit(r2);
      if (!v2 || v2->category != vv.category) {
        det_seeds += " " + std::to_string(seed) + ":" + vv.category + ":" + vv.message;
        fprintf(stderr, "seed %llu: violation '%s' not repeatable: %s\n", (unsigned long long)seed, vv.category.c_str(), vv.message.c_str());
        ++det_bad;
        continue;
      }
      int mruns = 0;
      auto w0 = weight(r.streams);
      auto m = minimise(*sc, seed, r.streams, vv.category, min_seconds, mruns);
      auto r3 = run(*sc, seed, &m, true);
      auto* v3 = hit(r3);
      if (!v3 || v3->category != vv.category) {
        m = r.streams;
        r3 = run(*sc, seed, &m, true);
        v3 = hit(r3);
        if (!v3) {
          det_seeds += " " + std::to_string(seed) + ":replay";
          ++det_bad;
          continue;
        }
      }
      auto path = replay_dir + "/" + focus + "-" + std::to_string(seed) + "-" + std::to_string(vjson.size()) + ".replay";
      write_replay(path, *sc, seed, m, *v3, r3);
      std::string js = "{\"seed\": " + std::to_string(seed) + ", \"category\": " + jstr(v3->category) + ", \"message\": " + jstr(v3->message) + ", \"replay\": " + jstr(path)
          + ", \"decisions_before\": " + std::to_string(w0) + ", \"decisions_after\": " + std::to_string(weight(m)) + ", \"minimise_runs\": " + std::to_string(mruns) + "}";
      vjson.push_back(js);
      if (tier == "quick") {
        // one confirmed violation decides a quick check
        break;
      }
    }
  }
  std::ostringstream o;
  o << "{\"runs\": " << runs << ", \"wall_s\": " << wall() - t0 << ", \"sim_s\": " << static_cast<double>(simns / 1e9L) << ", \"steps\": " << steps
    << ", \"distinct_schedules\": " << scheds.size() << ", \"determinism_checks\": " << det_checks << ", \"determinism_failures\": " << det_bad << ", \"determinism_bad_seeds\": " << jstr(det_seeds) << ", \"known_runs\": " << known_runs;
  auto obj = [&](const char* name, auto& m) {
    o << ", \"" << name << "\": {";
    bool c = false;
    for (auto& [k, x] : m) {
      o << (c ? ", " : "") << jstr(k) << ": " << x;
      c = true;
    }
    o << "}";
  };
  obj("faults", fsum);
  obj("fault_runs", fruns);
  obj("counters", csum);
  o << ", \"schedules\": [";
  {
    bool c = false;
    std::size_t k = 0;
    for (auto s : scheds) {
      if (++k > 200000) {
        break;
      }
      o << (c ? "," : "") << "\"" << std::hex << s << std::dec << "\"";
      c = true;
    }
  }
  o << "], \"violations\": [";
  for (std::size_t i = 0; i < vjson.size(); ++i) {
    o << (i ? ", " : "") << vjson[i];
  }
  o << "]}\n";
  if (out.empty()) {
    auto s = o.str();
    auto p = s.find(", \"schedules\"");
    auto q = s.find(", \"violations\"");
    s.erase(p, q - p);
    printf("%s", s.c_str());
  } else {
    std::ofstream(out) << o.str();
  }
  return vjson.empty() ? 0 : 1;
}
