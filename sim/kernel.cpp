#include "kernel.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <new>
#include <set>
#include <unordered_map>
#include <unordered_set>

#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <liburing.h>
#include <linux/futex.h>
#include <malloc.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#define REAL(name) \
  static auto real = reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name))

namespace sim {

Choices choices;
Profile profile;
static bool g_idle_waiting = false;
std::function<void()> on_step;
ns_t idle_horizon = 200 * sec;
void (*on_hang)() = nullptr;
std::uint64_t step_count = 0, step_limit = 400000;
std::map<std::string, std::uint64_t> faults, counters;
bool trace_on = false;
std::vector<std::string> trace_lines;
std::uint64_t trace_hash = 1469598103934665603ull, sched_hash = 1469598103934665603ull;
std::string fs_prefix = "/simfs/";
std::uint64_t disk_free = UINT64_MAX;
std::function<void(const std::string&, Inode&, std::uint64_t, std::uint64_t)> on_file_read;
std::function<void(const std::string&)> on_file_open;
std::map<std::string, unsigned> file_errors;
std::vector<std::string> stdout_data;
bool alloc_track = false, alloc_failed = false;
std::int64_t alloc_live_bytes = 0, alloc_live_blocks = 0, alloc_fail_at = -1;
std::uint32_t n_cpus = 2;

// ---------------------------------------------------------------- choices
static std::uint64_t splitmix(std::uint64_t& x)
{
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
Choices::Stream& Choices::get(std::string_view name)
{
  auto it = streams.find(name);
  if (it == streams.end()) {
    it = streams.emplace(std::string(name), Stream {}).first;
    std::uint64_t h = seed ^ 0x5bd1e995u;
    for (unsigned char c : name) {
      h = (h ^ c) * 1099511628211ull;
    }
    splitmix(h);
    it->second.s = h;
  }
  return it->second;
}
std::uint64_t Choices::raw(Stream& st) { return splitmix(st.s); }
std::uint32_t Choices::pick(std::string_view name, std::uint32_t n)
{
  if (n <= 1) {
    return 0;
  }
  auto& st = get(name);
  std::uint32_t v;
  if (replay) {
    v = st.pos < st.rec.size() ? st.rec[st.pos] : 0;
    if (v >= n) {
      v = n - 1;
    }
  } else {
    v = static_cast<std::uint32_t>(raw(st) % n);
    st.rec.push_back(v);
  }
  ++st.pos;
  return v;
}
bool Choices::chance(std::string_view name, std::uint32_t num, std::uint32_t den)
{
  if (num == 0) {
    return false;
  }
  auto& st = get(name);
  bool v;
  if (replay) {
    v = st.pos < st.rec.size() ? st.rec[st.pos] != 0 : false;
  } else {
    v = raw(st) % den < num;
    st.rec.push_back(v);
  }
  ++st.pos;
  return v;
}

// ---------------------------------------------------------------- state
static bool g_active = false;
static ns_t g_now = 0;
static ns_t g_rt_offset = 0;

void fault(const char* kind) { ++faults[kind]; }
void count(const std::string& c, std::uint64_t n) { counters[c] += n; }
static void mix(std::uint64_t& h, const char* s, std::size_t n)
{
  for (std::size_t i = 0; i < n; ++i) {
    h = (h ^ static_cast<unsigned char>(s[i])) * 1099511628211ull;
  }
}
static void mixs(const char* s, std::uint64_t v)
{
  mix(sched_hash, s, strlen(s));
  mix(sched_hash, reinterpret_cast<const char*>(&v), sizeof v);
}
void trace(const char* fmt, ...)
{
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  n = std::min<int>(n, sizeof buf - 1);
  mix(trace_hash, reinterpret_cast<const char*>(&g_now), sizeof g_now);
  mix(trace_hash, buf, n);
  if (trace_on && trace_lines.size() < 20000) {
    char t[40];
    snprintf(t, sizeof t, "%12.6f ", static_cast<double>(g_now) / 1e9);
    trace_lines.push_back(std::string(t) + std::string(buf, n));
  }
}

void hang(const std::string& why)
{
  fprintf(stderr, "SIM-HANG: %s\n", why.c_str());
  fflush(stderr);
  if (on_hang) {
    on_hang();
  }
  _exit(97);
}

// ---------------------------------------------------------------- events
struct Ev {
  ns_t t;
  std::uint64_t seq;
  bool operator<(const Ev& o) const { return t != o.t ? t < o.t : seq < o.seq; }
};
static std::map<Ev, std::function<void()>>* g_ev;
static std::uint64_t g_evseq = 0;

bool active() { return g_active; }
ns_t now() { return g_now; }
ns_t realtime() { return 1735689600ll * sec + g_now + g_rt_offset; } // 2025-01-01
void at(ns_t when, std::function<void()> fn)
{
  if (when < g_now) {
    when = g_now;
  }
  g_ev->emplace(Ev { when, g_evseq++ }, std::move(fn));
}
bool events_pending() { return !g_ev->empty(); }

// ---------------------------------------------------------------- tasks
struct Task {
  int id = 0;
  pthread_t th {};
  std::atomic<int> go { 0 };
  bool done = false, detached = false;
  bool blocked = false;
  std::function<bool()> ready;
  ns_t deadline = INT64_MAX;
  bool timed_out = false;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
};
static std::vector<Task*>* g_tasks;
static thread_local Task* t_self = nullptr;
static thread_local int t_inside = 0; // in simulator code: no interposition of locks

static bool managed() { return g_active && t_self != nullptr && t_inside == 0; }
struct Inside {
  Inside() { ++t_inside; }
  ~Inside() { --t_inside; }
};

static long real_futex(std::atomic<int>* a, int op, int v)
{
  static auto rs = reinterpret_cast<long (*)(long, ...)>(dlsym(RTLD_NEXT, "syscall"));
  return rs(SYS_futex, a, op, v, nullptr, nullptr, 0);
}
static void wake(Task* t)
{
  t->go.store(1);
  real_futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}
static void wait_go(Task* t)
{
  while (t->go.load() == 0) {
    real_futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
  }
  t->go.store(0);
}

static void run_due()
{
  while (!g_ev->empty() && g_ev->begin()->first.t <= g_now) {
    auto node = g_ev->extract(g_ev->begin());
    node.mapped()();
  }
}

static void advance(ns_t to)
{
  if (to > g_now) {
    g_now = to;
  }
}

static ns_t g_next_deadline()
{
  ns_t d = INT64_MAX;
  for (auto* t : *g_tasks) {
    if (!t->done && t->blocked) {
      d = std::min(d, t->deadline);
    }
  }
  return d;
}

// Picks the next task to run; the caller's own task must already be marked
// (blocked with a predicate, or runnable).
static Task* choose_next()
{
  for (;;) {
    if (++step_count > step_limit) {
      hang("step limit reached (livelock)");
    }
    if (on_step) {
      on_step();
    }
    bool skip = !g_ev->empty() && profile.reorder && chance("sched.skip", profile.reorder, 2048);
    if (!skip) {
      run_due();
    }
    Task* cand[64];
    std::size_t n = 0;
    // the current task first: choice 0 = no switch
    auto test = [&](Task* t) {
      if (t->done || n == 64) {
        return;
      }
      if (!t->blocked || t->deadline <= g_now || t->ready()) {
        cand[n++] = t;
      }
    };
    if (t_self) {
      test(t_self);
    }
    for (auto* t : *g_tasks) {
      if (t != t_self) {
        test(t);
      }
    }
    if (n) {
      if (profile.cpu && chance("sched.cpu", profile.cpu, 8192)) {
        static const ns_t d[] = { 100 * us, 2 * ms, 50 * ms, 700 * ms };
        advance(g_now + d[pick("sched.cpu", 4)]);
        fault("slow_node");
      }
      auto k = n > 1 ? pick("sched", static_cast<std::uint32_t>(n)) : 0;
      if (n > 1) {
        mixs("t", static_cast<std::uint64_t>(cand[k]->id));
        trace("run task %d of %zu", cand[k]->id, n);
      }
      return cand[k];
    }
    if (skip) {
      run_due();
      continue;
    }
    ns_t t = g_next_deadline();
    if (!g_ev->empty()) {
      t = std::min(t, g_ev->begin()->first.t);
    }
    // Asio re-arms its timerfd every five minutes for ever, so "nothing but a
    // wake-up minutes away" counts as quiescence
    if (t == INT64_MAX || t - g_now > idle_horizon) {
      if (g_idle_waiting) {
        g_idle_waiting = false; // its predicate
        continue;
      }
    }
    if (t != INT64_MAX) {
      advance(t);
      continue;
    }
    std::string who;
    for (auto* x : *g_tasks) {
      if (!x->done) {
        who += " task" + std::to_string(x->id) + (x->blocked ? "(blocked)" : "");
      }
    }
    hang("deadlock: nothing can run:" + who);
  }
}

// returns true when the predicate held, false on deadline
static bool block(std::function<bool()> ready, ns_t deadline)
{
  Inside in;
  auto* self = t_self;
  self->blocked = true;
  self->ready = std::move(ready);
  self->deadline = deadline;
  auto* next = choose_next();
  if (next != self) {
    wake(next);
    wait_go(self);
  }
  bool ok = self->ready();
  self->blocked = false;
  self->deadline = INT64_MAX;
  self->ready = nullptr;
  return ok;
}

void wait_idle()
{
  g_idle_waiting = true;
  block([] { return !g_idle_waiting; }, INT64_MAX);
}
void sleep_until(ns_t t)
{
  block([] { return false; }, t);
}
void thread_yield(const char*)
{
  if (!g_active || !t_self || g_tasks->size() < 2) {
    return;
  }
  Inside in;
  auto* next = choose_next();
  if (next != t_self) {
    auto* self = t_self;
    wake(next);
    wait_go(self);
  }
}
static void preempt()
{
  if (g_tasks->size() > 1 && profile.thread_switch && t_inside == 0) {
    bool b;
    {
      Inside in;
      b = chance("sched.preempt", profile.thread_switch, 1024);
      if (b) {
        fault("preemption");
      }
    }
    if (b) {
      thread_yield("preempt");
    }
  }
}
int thread_count()
{
  int n = 0;
  for (auto* t : *g_tasks) {
    n += !t->done;
  }
  return n;
}
int self_id() { return t_self ? t_self->id : -1; }

// ---------------------------------------------------------------- fds
enum class K { listen, conn, epoll, eventfd, timerfd, file, uring, sock };
struct OpenFile {
  std::shared_ptr<Inode> ino;
  std::string path;
  std::uint64_t pos = 0;
  bool append = false, rd = true, wr = false, is_stdout = false;
};
struct Interest {
  std::uint32_t events = 0;
  epoll_data_t data {};
  std::uint32_t edge = 0; // something happened since the last report
};
struct Fd {
  K kind;
  int fd = -1;
  bool nonblock = false;
  // listen/sock
  int family = AF_INET;
  std::uint16_t port = 0;
  std::string path, ip;
  bool reuse = false;
  std::deque<Conn*> backlog;
  int backlog_max = 128;
  // conn
  Conn* conn = nullptr;
  // eventfd
  std::uint64_t cnt = 0;
  // timerfd
  ns_t expiry = INT64_MAX;
  std::uint64_t gen = 0;
  // epoll
  std::map<int, Interest> interest;
  // file
  std::shared_ptr<OpenFile> file;
  // uring
  io_uring* ring = nullptr;
};
constexpr int FD_BASE = 1000;
static std::map<int, std::unique_ptr<Fd>>* g_fds;
static std::vector<std::unique_ptr<Conn>>* g_conns;
static std::map<std::string, std::shared_ptr<Inode>>* g_fs;
static std::map<int, std::shared_ptr<OpenFile>>* g_realfiles; // real fd -> simulated file
std::map<std::string, std::shared_ptr<Inode>>& fs() { return *g_fs; }

static Fd* getfd(int fd)
{
  if (!g_active || fd < FD_BASE) {
    return nullptr;
  }
  auto it = g_fds->find(fd);
  return it == g_fds->end() ? nullptr : it->second.get();
}
static bool mine(int fd) { return g_active && fd >= FD_BASE; }
static Fd* newfd(K k)
{
  int fd = FD_BASE;
  for (auto& [f, p] : *g_fds) {
    if (f != fd) {
      break;
    }
    ++fd;
  }
  auto p = std::make_unique<Fd>();
  p->kind = k;
  p->fd = fd;
  auto* r = p.get();
  g_fds->emplace(fd, std::move(p));
  return r;
}
int open_fds() { return static_cast<int>(g_fds->size()); }
int open_sockets()
{
  int n = 0;
  for (auto& [f, p] : *g_fds) {
    n += p->kind == K::sock || p->kind == K::listen;
  }
  return n;
}
int open_conn_fds()
{
  int n = 0;
  for (auto& [f, p] : *g_fds) {
    n += p->kind == K::conn;
  }
  return n;
}
int pending_backlog()
{
  int n = 0;
  for (auto& [f, p] : *g_fds) {
    n += static_cast<int>(p->backlog.size());
  }
  return n;
}
std::string open_fds_text()
{
  static const char* names[] = { "listen", "conn", "epoll", "eventfd", "timerfd", "file", "uring", "sock" };
  std::string s;
  for (auto& [f, p] : *g_fds) {
    s += " " + std::to_string(f) + ":" + names[static_cast<int>(p->kind)];
    if (p->conn) {
      s += "(" + p->conn->label + ")";
    }
    if (p->file) {
      s += "(" + p->file->path + ")";
    }
  }
  return s;
}

static std::uint32_t mask_of(Fd& f)
{
  std::uint32_t m = 0;
  switch (f.kind) {
  case K::listen:
    if (!f.backlog.empty()) {
      m |= EPOLLIN;
    }
    break;
  case K::conn: {
    auto& c = *f.conn;
    if (c.rx_pos < c.rx.size() || c.rx_fin || c.rx_shut || c.so_error || c.was_reset) {
      m |= EPOLLIN;
    }
    if (c.rx_fin || c.was_reset) {
      m |= EPOLLRDHUP;
    }
    if (c.tx.size() < c.tx_cap || c.so_error || c.was_reset || c.tx_shut) {
      m |= EPOLLOUT;
    }
    if (c.was_reset || (c.rx_fin && c.tx_shut)) {
      m |= EPOLLHUP;
    }
    if (c.so_error) {
      m |= EPOLLERR;
    }
    break;
  }
  case K::eventfd:
    if (f.cnt) {
      m |= EPOLLIN;
    }
    m |= EPOLLOUT;
    break;
  case K::timerfd:
    if (f.expiry <= g_now) {
      m |= EPOLLIN;
    }
    break;
  case K::file:
    m |= EPOLLIN | EPOLLOUT;
    break;
  case K::sock:
    m |= EPOLLOUT | EPOLLHUP;
    break;
  default:
    break;
  }
  return m;
}
static void edge(int fd)
{
  for (auto& [e, p] : *g_fds) {
    if (p->kind == K::epoll) {
      if (auto it = p->interest.find(fd); it != p->interest.end()) {
        it->second.edge = 1;
      }
    }
  }
}
static void edge(Conn& c)
{
  if (c.fd >= 0) {
    edge(c.fd);
  }
}
static std::uint32_t ready_mask(int fd, Interest& it)
{
  auto f = g_fds->find(fd);
  if (f == g_fds->end()) {
    return 0;
  }
  if ((it.events & EPOLLET) && !it.edge) {
    return 0;
  }
  return mask_of(*f->second) & (it.events | EPOLLERR | EPOLLHUP);
}
static bool epoll_ready(Fd& ep)
{
  for (auto& [fd, it] : ep.interest) {
    if (ready_mask(fd, it)) {
      return true;
    }
  }
  return false;
}

// ---------------------------------------------------------------- network
static ns_t net_delay(const std::string& io)
{
  if (profile.delay && chance(io, profile.delay, 1024)) {
    fault("net_delay");
    static const ns_t d[] = { 30 * us, 1 * ms, 20 * ms, 300 * ms };
    auto k = pick(io, 4);
    return d[k] + static_cast<ns_t>(pick(io, 64)) * (d[k] / 64);
  }
  return 20 * us;
}
static ns_t arrival(Conn& c, ns_t& last)
{
  ns_t t = g_now + net_delay(c.io);
  if (profile.stall && chance(c.io, profile.stall, 8192)) {
    static const ns_t d[] = { 500 * ms, 2 * sec, 7 * sec };
    c.stall(d[pick(c.io, 3)]);
  }
  t = std::max({ t, last, c.stall_until });
  last = t;
  return t;
}
void Conn::stall(ns_t d)
{
  fault("link_stall");
  stall_until = std::max(stall_until, g_now + d);
  trace("conn%d link stalled for %.3fs", id, double(d) / 1e9);
}
void Conn::send(std::string_view data)
{
  if (client_gone || fin_sent || reset_seen_by_client) {
    return;
  }
  while (!data.empty()) {
    std::size_t n = data.size();
    if (profile.split && n > 1 && chance(io, profile.split, 1024)) {
      fault("net_split");
      auto lim = static_cast<std::uint32_t>(std::min<std::size_t>(n, pick(io, 2) ? n : 16));
      n = 1 + pick(io, lim);
      n = std::min(n, data.size());
    }
    std::string seg(data.substr(0, n));
    data.remove_prefix(n);
    at(arrival(*this, last_in), [this, seg = std::move(seg)] {
      if (was_reset || server_closed) {
        if (server_closed && !was_reset && !reset_seen_by_client && !client_gone) {
          // data for a closed socket is answered with RST
          reset_seen_by_client = true;
          trace("conn%d RST (data after close)", id);
          ns_t t = std::max(last_out, g_now) + 20 * us;
          at(t, [this] {
            if (peer) {
              tx.clear();
              peer->on_reset();
            }
          });
        }
        return;
      }
      bytes_in += seg.size();
      if (rx_pos > 65536) {
        rx.erase(0, rx_pos);
        rx_pos = 0;
      }
      rx += seg;
      trace("conn%d <- %zu bytes", id, seg.size());
      mixs("d", static_cast<std::uint64_t>(id));
      edge(*this);
    });
  }
}
void Conn::shutdown_send()
{
  if (fin_sent || client_gone) {
    return;
  }
  fin_sent = true;
  at(arrival(*this, last_in), [this] {
    if (was_reset) {
      return;
    }
    rx_fin = true;
    trace("conn%d <- FIN", id);
    mixs("f", static_cast<std::uint64_t>(id));
    edge(*this);
  });
}
static void do_reset(Conn& c)
{
  if (c.was_reset) {
    return;
  }
  c.was_reset = true;
  c.so_error = ECONNRESET;
  c.tx.clear();
  trace("conn%d <- RST", c.id);
  mixs("r", static_cast<std::uint64_t>(c.id));
  edge(c);
}
void Conn::close()
{
  if (client_gone) {
    return;
  }
  fault("client_close");
  shutdown_send();
  client_gone = true;
  if (!tx.empty()) {
    at(arrival(*this, last_in), [this] { do_reset(*this); });
  }
}
void Conn::reset()
{
  if (client_gone) {
    return;
  }
  fault("client_reset");
  client_gone = true;
  fin_sent = true;
  at(arrival(*this, last_in), [this] { do_reset(*this); });
}
static void schedule_drain(Conn& c);
void Conn::pause(bool on)
{
  if (paused != on) {
    paused = on;
    if (on) {
      fault("slow_reader");
    } else {
      schedule_drain(*this);
    }
  }
}
static void schedule_drain(Conn& c)
{
  if (c.drain_scheduled || c.paused || c.reset_seen_by_client) {
    return;
  }
  if (c.tx.empty() && !(c.tx_shut && !c.tx_fin_delivered)) {
    return;
  }
  c.drain_scheduled = true;
  at(arrival(c, c.last_out), [&c] {
    c.drain_scheduled = false;
    if (c.paused || c.was_reset || c.reset_seen_by_client) {
      return;
    }
    if (!c.tx.empty()) {
      std::size_t n = c.tx.size();
      if (profile.split && n > 1 && chance(c.io, profile.split, 1024)) {
        n = 1 + pick(c.io, static_cast<std::uint32_t>(std::min<std::size_t>(n, 8192)));
        n = std::min(n, c.tx.size());
      }
      std::string seg = c.tx.substr(0, n);
      bool was_full = c.tx.size() >= c.tx_cap;
      c.tx.erase(0, n);
      if (was_full || c.tx.empty()) {
        edge(c);
      }
      if (c.client_gone) {
        at(arrival(c, c.last_in), [&c] { do_reset(c); });
        return;
      }
      trace("conn%d -> %zu bytes delivered", c.id, n);
      mixs("o", static_cast<std::uint64_t>(c.id));
      c.bytes_out += n;
      if (c.peer) {
        c.peer->on_data(seg);
      }
    }
    if (c.tx.empty() && c.tx_shut && !c.tx_fin_delivered && !c.was_reset) {
      c.tx_fin_delivered = true;
      trace("conn%d -> FIN delivered", c.id);
      if (c.peer && !c.client_gone) {
        c.peer->on_fin();
      }
      return;
    }
    schedule_drain(c);
  });
}

static Conn* new_conn(Peer* peer, const std::string& label)
{
  auto c = std::make_unique<Conn>();
  c->id = static_cast<int>(g_conns->size());
  c->peer = peer;
  c->label = label;
  c->io = "net/" + label;
  c->peer_port = static_cast<std::uint16_t>(20000 + c->id);
  c->t_connected = g_now;
  if (profile.small_sndbuf && chance(c->io, profile.small_sndbuf, 1024)) {
    fault("small_send_buffer");
    static const std::size_t caps[] = { 700, 2000, 512, 4096 };
    c->tx_cap = caps[pick(c->io, 4)];
  }
  g_conns->push_back(std::move(c));
  return g_conns->back().get();
}
// does a listener bound to `bound` take connections to `ip`? ("" is any address of the old simple interface)
static bool covers(const Fd& l, const std::string& ip)
{
  if (ip.empty() || l.ip == ip) {
    return true;
  }
  bool v6 = ip.find(':') != std::string::npos;
  return l.ip == "::" || (!v6 && l.ip == "0.0.0.0");
}
static Fd* find_listener(std::uint16_t port, const std::string& path, const std::string& ip = "")
{
  for (auto& [f, p] : *g_fds) {
    if (p->kind == K::listen && (path.empty() ? (p->port == port && p->family != AF_UNIX && covers(*p, ip)) : p->path == path)) {
      return p.get();
    }
  }
  return nullptr;
}
// would binding `f` clash with a socket that listens?
static bool address_in_use(const Fd& f)
{
  for (auto& [n, p] : *g_fds) {
    if (p->kind != K::listen || p.get() == &f) {
      continue;
    }
    if (f.family == AF_UNIX) {
      if (p->path == f.path) {
        return true;
      }
    } else if (p->family != AF_UNIX && p->port == f.port && (covers(*p, f.ip) || covers(f, p->ip))) {
      return true;
    }
  }
  return false;
}
bool listening(std::uint16_t port) { return find_listener(port, "") != nullptr; }
int last_bind_error;
bool last_bind_injected;
static std::set<std::string>* g_sock_files; // paths that sockets were bound to
bool socket_file(const std::string& path) { return g_sock_files->contains(path); }
static std::set<std::uint16_t>* g_time_wait; // ports with connections the server closed first
int listener_backlog(const std::string& ip, std::uint16_t port, const std::string& path)
{
  auto* l = find_listener(port, path, ip);
  return l ? l->backlog_max : -1;
}
static void arrive(Conn* c, std::uint16_t port, std::string path)
{
  ns_t t = g_now + net_delay(c->io);
  c->last_in = t;
  at(t, [c, port, path] {
    auto* l = find_listener(port, path, c->peer_ip.empty() ? "" : c->ip);
    if (!l || static_cast<int>(l->backlog.size()) >= l->backlog_max + 1) {
      trace("conn%d refused", c->id);
      c->server_closed = true;
      if (c->peer) {
        c->peer->on_refused();
      }
      return;
    }
    l->backlog.push_back(c);
    c->local_port = port;
    c->path = path;
    trace("conn%d arrives (%s)", c->id, c->label.c_str());
    mixs("a", static_cast<std::uint64_t>(c->id));
    edge(l->fd);
    if (c->peer) {
      c->peer->on_connected();
    }
  });
}
Conn* connect(Peer* peer, std::uint16_t port, const std::string& label)
{
  auto* c = new_conn(peer, label);
  arrive(c, port, "");
  return c;
}
Conn* connect_local(Peer* peer, const std::string& path, const std::string& label)
{
  auto* c = new_conn(peer, label);
  c->local = true;
  arrive(c, 0, path);
  return c;
}
Conn* connect_to(Peer* peer, const std::string& ip, std::uint16_t port, const std::string& label)
{
  auto* c = new_conn(peer, label);
  c->ip = ip;
  c->peer_ip = ip.find(':') != std::string::npos ? "fd00::" + std::to_string(1000 + c->id) : "10.1.0." + std::to_string(c->id % 250 + 1);
  arrive(c, port, "");
  return c;
}

static void server_close_conn(Conn& c)
{
  c.server_closed = true;
  c.t_closed = g_now;
  c.fd = -1;
  if (c.was_reset) {
    return;
  }
  bool unread = c.rx_pos < c.rx.size();
  trace("conn%d closed by server%s", c.id, unread ? " (unread data)" : "");
  if (unread && !c.client_gone) {
    // Linux answers close() with unread data by RST and drops what it had not
    // yet transmitted; how much that is depends on timing.
    if (!c.tx.empty() && chance(c.io, 1, 2)) {
      fault("rst_on_close_lost_data");
      c.tx.clear();
      c.reset_seen_by_client = true;
      at(arrival(c, c.last_out), [&c] {
        if (c.peer) {
          c.peer->on_reset();
        }
      });
      return;
    }
  }
  c.tx_shut = true;
  if (!c.local && !c.rx_fin) {
    g_time_wait->insert(c.local_port);
  }
  schedule_drain(c);
}

// ---------------------------------------------------------------- socket I/O
static ssize_t conn_recv(Fd& f, const iovec* iov, int n)
{
  auto& c = *f.conn;
  std::size_t want = 0;
  for (int i = 0; i < n; ++i) {
    want += iov[i].iov_len;
  }
  std::size_t have = c.rx.size() - c.rx_pos;
  if (have == 0) {
    if (c.so_error) {
      errno = c.so_error;
      c.so_error = 0;
      trace("conn%d recv fails: %d", c.id, errno);
      return -1;
    }
    if (c.rx_fin || c.was_reset || c.rx_shut) {
      trace("conn%d recv end of file", c.id);
      return 0;
    }
    if (want == 0) {
      return 0;
    }
    errno = EAGAIN;
    return -1;
  }
  if (profile.eintr && chance(c.io, profile.eintr, 8192)) {
    fault("recv_eintr");
    errno = EINTR;
    return -1;
  }
  if (profile.eagain && chance(c.io, profile.eagain, 8192)) {
    fault("recv_spurious_eagain");
    errno = EAGAIN;
    edge(c);
    return -1;
  }
  if (profile.recv_err && chance(c.io, profile.recv_err, 8192)) {
    fault("recv_error");
    c.disturbed = true;
    do_reset(c);
    c.rx.clear();
    c.rx_pos = 0;
    c.client_gone = true;
    c.so_error = 0;
    errno = pick(c.io, 2) ? ETIMEDOUT : ECONNRESET;
    return -1;
  }
  std::size_t len = std::min(want, have);
  if (len > 1 && profile.short_read && chance(c.io, profile.short_read, 2048)) {
    fault("short_read");
    len = 1 + pick(c.io, static_cast<std::uint32_t>(std::min<std::size_t>(len, 4096)));
    len = std::min({ len, want, have });
  }
  std::size_t left = len;
  for (int i = 0; i < n && left; ++i) {
    auto k = std::min(left, iov[i].iov_len);
    memcpy(iov[i].iov_base, c.rx.data() + c.rx_pos, k);
    c.rx_pos += k;
    left -= k;
  }
  c.got_by_server += len;
  c.t_last_recv = now();
  c.recv_log.emplace_back(now(), static_cast<std::uint64_t>(c.got_by_server));
  trace("conn%d recv %zu", c.id, len);
  return static_cast<ssize_t>(len);
}
static ssize_t conn_send(Fd& f, const iovec* iov, int n)
{
  auto& c = *f.conn;
  std::size_t want = 0;
  for (int i = 0; i < n; ++i) {
    want += iov[i].iov_len;
  }
  if (c.so_error) {
    errno = c.so_error;
    c.so_error = 0;
    trace("conn%d send fails: %d", c.id, errno);
    return -1;
  }
  if (c.was_reset || c.tx_shut) {
    trace("conn%d send fails: EPIPE", c.id);
    errno = EPIPE;
    return -1;
  }
  if (profile.eintr && chance(c.io, profile.eintr, 8192)) {
    fault("send_eintr");
    errno = EINTR;
    return -1;
  }
  std::size_t room = c.tx_cap > c.tx.size() ? c.tx_cap - c.tx.size() : 0;
  if (room == 0) {
    c.tx_short = true;
    errno = EAGAIN;
    return -1;
  }
  if (profile.send_err && chance(c.io, profile.send_err, 8192)) {
    fault("send_error");
    c.disturbed = true;
    if (pick(c.io, 2)) {
      errno = ENOBUFS;
      return -1;
    }
    do_reset(c);
    c.client_gone = true;
    c.so_error = 0;
    errno = EPIPE;
    return -1;
  }
  if (profile.eagain && chance(c.io, profile.eagain, 8192)) {
    fault("send_spurious_eagain");
    errno = EAGAIN;
    edge(c);
    return -1;
  }
  std::size_t len = std::min(want, room);
  if (len > 1 && profile.short_write && chance(c.io, profile.short_write, 2048)) {
    fault("short_write");
    len = c.bytes_taken > 20000 ? len / 2 + pick(c.io, static_cast<std::uint32_t>(len / 2)) : 1 + pick(c.io, static_cast<std::uint32_t>(std::min<std::size_t>(len, 4096)));
    len = std::min({ len, want, room });
    // the kernel had no more room just now
    edge(c);
  }
  std::size_t left = len;
  for (int i = 0; i < n && left; ++i) {
    auto k = std::min(left, iov[i].iov_len);
    c.tx.append(static_cast<const char*>(iov[i].iov_base), k);
    left -= k;
  }
  c.t_last_sent = g_now;
  c.bytes_taken += len;
  c.tx_short = len < want;
  trace("conn%d send %zu of %zu", c.id, len, want);
  schedule_drain(c);
  return static_cast<ssize_t>(len);
}

// ---------------------------------------------------------------- files
static ssize_t file_read(OpenFile& f, const iovec* iov, int n, std::int64_t off)
{
  bool use_pos = off < 0;
  std::uint64_t p = use_pos ? f.pos : static_cast<std::uint64_t>(off);
  if (!f.rd) {
    errno = EBADF;
    return -1;
  }
  std::size_t want = 0;
  for (int i = 0; i < n; ++i) {
    want += iov[i].iov_len;
  }
  if (on_file_read) {
    on_file_read(f.path, *f.ino, p, want);
  }
  if (profile.file_read_err && chance("disk", profile.file_read_err, 4096)) {
    fault("file_read_error");
    ++file_errors[f.path];
    trace("read %s fails", f.path.c_str());
    errno = EIO;
    return -1;
  }
  std::size_t have = p < f.ino->data.size() ? f.ino->data.size() - p : 0;
  std::size_t len = std::min(want, have);
  if (len > 1 && profile.file_short && chance("disk", profile.file_short, 2048)) {
    fault("file_short_read");
    len = 1 + pick("disk", static_cast<std::uint32_t>(std::min<std::size_t>(len, 8192)));
    len = std::min({ len, want, have });
  }
  std::size_t left = len, q = p;
  for (int i = 0; i < n && left; ++i) {
    auto k = std::min(left, iov[i].iov_len);
    memcpy(iov[i].iov_base, f.ino->data.data() + q, k);
    q += k;
    left -= k;
  }
  if (use_pos) {
    f.pos = q;
  }
  trace("file read %s @%llu %zu", f.path.c_str(), (unsigned long long)p, len);
  return static_cast<ssize_t>(len);
}
static ssize_t file_write(OpenFile& f, const iovec* iov, int n, std::int64_t off)
{
  std::size_t want = 0;
  for (int i = 0; i < n; ++i) {
    want += iov[i].iov_len;
  }
  if (f.is_stdout) {
    std::string s;
    for (int i = 0; i < n; ++i) {
      s.append(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
    }
    if (s.size() > 1 && profile.file_short && chance("disk", profile.file_short, 2048)) {
      fault("file_short_write");
      s.resize(1 + pick("disk", static_cast<std::uint32_t>(s.size() - 1)));
    }
    stdout_data.push_back(s);
    return static_cast<ssize_t>(s.size());
  }
  if (!f.wr) {
    errno = EBADF;
    return -1;
  }
  bool use_pos = off < 0;
  std::uint64_t p = f.append ? f.ino->data.size() : use_pos ? f.pos : static_cast<std::uint64_t>(off);
  if (profile.file_write_err && chance("disk", profile.file_write_err, 4096)) {
    fault("file_write_error");
    ++file_errors[f.path];
    errno = pick("disk", 2) ? ENOSPC : EIO;
    trace("write %s fails", f.path.c_str());
    return -1;
  }
  std::size_t len = want;
  if (len > 1 && profile.file_short && chance("disk", profile.file_short, 2048)) {
    fault("file_short_write");
    len = 1 + pick("disk", static_cast<std::uint32_t>(std::min<std::size_t>(len, 8192)));
    len = std::min(len, want);
  }
  if (len > disk_free) {
    fault("disk_full");
    len = disk_free;
    if (len == 0) {
      ++file_errors[f.path];
      errno = ENOSPC;
      return -1;
    }
  }
  disk_free -= len;
  if (f.ino->data.size() < p + len) {
    f.ino->data.resize(p + len);
  }
  std::size_t left = len, q = p;
  for (int i = 0; i < n && left; ++i) {
    auto k = std::min(left, iov[i].iov_len);
    memcpy(f.ino->data.data() + q, iov[i].iov_base, k);
    q += k;
    left -= k;
  }
  if (use_pos) {
    f.pos = q;
  }
  f.ino->mtime = realtime();
  trace("file write %s @%llu %zu of %zu", f.path.c_str(), (unsigned long long)p, len, want);
  return static_cast<ssize_t>(len);
}
static std::shared_ptr<OpenFile> file_open(const std::string& path, int flags)
{
  if (profile.file_open_err && chance("disk", profile.file_open_err, 2048)) {
    fault("file_open_error");
    ++file_errors[path];
    static const int e[] = { EMFILE, EACCES, EIO, ENOENT };
    errno = e[pick("disk", 4)];
    return nullptr;
  }
  auto it = g_fs->find(path);
  if (it == g_fs->end()) {
    if (!(flags & O_CREAT)) {
      errno = ENOENT;
      return nullptr;
    }
    it = g_fs->emplace(path, std::make_shared<Inode>()).first;
    it->second->mtime = realtime();
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
    errno = EEXIST;
    return nullptr;
  }
  auto f = std::make_shared<OpenFile>();
  f->ino = it->second;
  f->path = path;
  int acc = flags & O_ACCMODE;
  f->rd = acc != O_WRONLY;
  f->wr = acc != O_RDONLY;
  f->append = flags & O_APPEND;
  if ((flags & O_TRUNC) && f->wr) {
    f->ino->data.clear();
  }
  return f;
}

// ---------------------------------------------------------------- io_uring
struct UOp {
  __u64 user_data;
  int opcode;
  std::shared_ptr<OpenFile> file;
  int fd;
  std::vector<iovec> iov;
  std::int64_t off;
  bool live = true;
};
struct URing {
  int event_fd = -1;
  unsigned khead = 0, ktail = 0, kflags = 0, kdropped = 0, mask = 0, entries = 0;
  unsigned chead = 0, ctail = 0, cflags = 0, coverflow = 0, cmask = 0, centries = 0;
  std::vector<io_uring_sqe> sqes;
  std::vector<io_uring_cqe> cqes;
  std::vector<unsigned> array;
  std::vector<std::shared_ptr<UOp>> pending;
};
static std::map<int, std::unique_ptr<URing>>* g_rings;

static void cqe(URing& r, __u64 data, int res)
{
  auto& e = r.cqes[r.ctail & r.cmask];
  e.user_data = data;
  e.res = res;
  e.flags = 0;
  __atomic_store_n(&r.ctail, r.ctail + 1, __ATOMIC_RELEASE);
  if (auto* f = getfd(r.event_fd)) {
    f->cnt += 1;
    edge(f->fd);
  }
}

// ---------------------------------------------------------------- lifecycle
void start(std::uint64_t seed)
{
  // containers leak on purpose: runs happen in forked children
  g_ev = new std::map<Ev, std::function<void()>>();
  g_tasks = new std::vector<Task*>();
  g_fds = new std::map<int, std::unique_ptr<Fd>>();
  g_conns = new std::vector<std::unique_ptr<Conn>>();
  g_fs = new std::map<std::string, std::shared_ptr<Inode>>();
  g_realfiles = new std::map<int, std::shared_ptr<OpenFile>>();
  g_time_wait = new std::set<std::uint16_t>();
  g_sock_files = new std::set<std::string>();
  last_bind_error = 0;
  last_bind_injected = false;
  g_rings = new std::map<int, std::unique_ptr<URing>>();
  choices.seed = seed;
  g_now = 1000 * sec;
  auto* t = new Task();
  t->id = 0;
  t->th = pthread_self();
  t_self = t;
  g_tasks->push_back(t);
  g_active = true;
}
void stop() { g_active = false; }

} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- interposed
extern "C" {

int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
  if (g_active) {
    ns_t t;
    switch (id) {
    case CLOCK_REALTIME:
    case CLOCK_REALTIME_COARSE:
      t = realtime();
      break;
    case CLOCK_MONOTONIC:
    case CLOCK_MONOTONIC_RAW:
    case CLOCK_MONOTONIC_COARSE:
    case CLOCK_BOOTTIME:
      t = g_now;
      break;
    default:
      t = g_now;
    }
    ts->tv_sec = t / sec;
    ts->tv_nsec = t % sec;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
time_t time(time_t* out) noexcept
{
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out) {
    *out = ts.tv_sec;
  }
  return ts.tv_sec;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

static int sleep_for(ns_t d)
{
  if (managed()) {
    ns_t until = g_now + d;
    block([] { return false; }, until);
  } else if (g_active) {
    advance(g_now + d);
  }
  return 0;
}
int nanosleep(const struct timespec* r, struct timespec* rem)
{
  if (g_active) {
    return sleep_for(r->tv_sec * sec + r->tv_nsec);
  }
  REAL(nanosleep);
  return real(r, rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec* rem)
{
  if (g_active) {
    ns_t t = r->tv_sec * sec + r->tv_nsec;
    if (flags & TIMER_ABSTIME) {
      t -= c == CLOCK_REALTIME ? realtime() : g_now;
    }
    return sleep_for(std::max<ns_t>(t, 0));
  }
  REAL(clock_nanosleep);
  return real(c, flags, r, rem);
}
int usleep(useconds_t u)
{
  if (g_active) {
    return sleep_for(static_cast<ns_t>(u) * us);
  }
  REAL(usleep);
  return real(u);
}
int sched_yield() noexcept
{
  if (managed()) {
    thread_yield("sched_yield");
    return 0;
  }
  REAL(sched_yield);
  return real();
}

ssize_t getrandom(void* buf, size_t n, unsigned flags)
{
  if (g_active) {
    Inside in;
    auto& st = choices.get("entropy");
    auto* p = static_cast<unsigned char*>(buf);
    for (size_t i = 0; i < n; ++i) {
      p[i] = static_cast<unsigned char>(choices.raw(st));
    }
    return static_cast<ssize_t>(n);
  }
  REAL(getrandom);
  return real(buf, n, flags);
}

static bool bind_fault(const char* call, std::initializer_list<int> errs)
{
  if (profile.bind_err && chance("bind", profile.bind_err, 1024)) {
    auto e = errs.begin()[pick("bind", static_cast<std::uint32_t>(errs.size()))];
    fault((std::string(call) + "_error").c_str());
    trace("%s fails: %s", call, strerrorname_np(e));
    errno = last_bind_error = e;
    last_bind_injected = true;
    return true;
  }
  return false;
}
int socket(int domain, int type, int proto) noexcept
{
  if (g_active) {
    Inside in;
    if (bind_fault("socket", { EMFILE, ENFILE, ENOBUFS, ENOMEM, EAFNOSUPPORT })) {
      return -1;
    }
    auto* f = newfd(K::sock);
    f->family = domain;
    f->nonblock = type & SOCK_NONBLOCK;
    return f->fd;
  }
  REAL(socket);
  return real(domain, type, proto);
}
int bind(int fd, const struct sockaddr* addr, socklen_t len) noexcept
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    if (!f) {
      errno = EBADF;
      return -1;
    }
    if (bind_fault("bind", { EADDRINUSE, EACCES, EADDRNOTAVAIL, ENOMEM })) {
      return -1;
    }
    char text[64] {};
    if (addr->sa_family == AF_INET) {
      auto* a = reinterpret_cast<const sockaddr_in*>(addr);
      f->port = ntohs(a->sin_port);
      inet_ntop(AF_INET, &a->sin_addr, text, sizeof text);
    } else if (addr->sa_family == AF_INET6) {
      auto* a = reinterpret_cast<const sockaddr_in6*>(addr);
      f->port = ntohs(a->sin6_port);
      inet_ntop(AF_INET6, &a->sin6_addr, text, sizeof text);
    } else if (addr->sa_family == AF_UNIX) {
      f->path = reinterpret_cast<const sockaddr_un*>(addr)->sun_path;
    }
    f->ip = text;
    bool unix_socket = f->family == AF_UNIX;
    if (address_in_use(*f) || (unix_socket ? socket_file(f->path) : !f->reuse && g_time_wait->contains(f->port))) {
      errno = last_bind_error = EADDRINUSE;
      return -1;
    }
    if (unix_socket) {
      g_sock_files->insert(f->path);
    }
    trace("bind %s", f->family == AF_UNIX ? f->path.c_str() : (f->ip + " " + std::to_string(f->port)).c_str());
    return 0;
  }
  REAL(bind);
  return real(fd, addr, len);
}
int listen(int fd, int backlog) noexcept
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    if (!f) {
      errno = EBADF;
      return -1;
    }
    if (bind_fault("listen", { EADDRINUSE, ENOBUFS })) {
      return -1;
    }
    if (address_in_use(*f)) {
      errno = last_bind_error = EADDRINUSE;
      return -1;
    }
    f->kind = K::listen;
    f->backlog_max = backlog;
    return 0;
  }
  REAL(listen);
  return real(fd, backlog);
}
static void fill_addr(Conn& c, bool peer, struct sockaddr* addr, socklen_t* len)
{
  if (!addr || !len) {
    return;
  }
  if (c.local) {
    sockaddr_un a {};
    a.sun_family = AF_UNIX;
    socklen_t n = sizeof(sa_family_t);
    if (!peer && !c.path.empty()) {
      strncpy(a.sun_path, c.path.c_str(), sizeof a.sun_path - 1);
      n += static_cast<socklen_t>(c.path.size() + 1);
    }
    memcpy(addr, &a, std::min<std::size_t>(*len, n));
    *len = n;
    return;
  }
  auto port = htons(peer ? c.peer_port : c.local_port);
  auto& ip = peer ? c.peer_ip : c.ip;
  if (ip.find(':') != std::string::npos) {
    sockaddr_in6 a {};
    a.sin6_family = AF_INET6;
    a.sin6_port = port;
    inet_pton(AF_INET6, ip.c_str(), &a.sin6_addr);
    memcpy(addr, &a, std::min<std::size_t>(*len, sizeof a));
    *len = sizeof a;
    return;
  }
  sockaddr_in a {};
  a.sin_family = AF_INET;
  a.sin_port = port;
  if (!ip.empty()) {
    inet_pton(AF_INET, ip.c_str(), &a.sin_addr);
  } else {
    a.sin_addr.s_addr = htonl(0x0a000001u + static_cast<unsigned>(c.id));
  }
  memcpy(addr, &a, std::min<std::size_t>(*len, sizeof a));
  *len = sizeof a;
}
static int do_accept(int fd, struct sockaddr* addr, socklen_t* len)
{
  Inside in;
  auto* f = getfd(fd);
  if (!f) {
    errno = EBADF;
    return -1;
  }
  if (f->kind != K::listen) {
    errno = EINVAL;
    return -1;
  }
  if (f->backlog.empty()) {
    errno = EAGAIN;
    return -1;
  }
  if (profile.accept_err && chance("accept", profile.accept_err, 1024)) {
    static const int e[] = { EMFILE, ENFILE, ECONNABORTED, ENOBUFS, EPERM, EINTR, EPROTO, ENOMEM };
    static const char* nm[] = { "accept_emfile", "accept_enfile", "accept_econnaborted", "accept_enobufs",
                                "accept_eperm", "accept_eintr", "accept_eproto", "accept_enomem" };
    auto k = pick("accept", 8);
    fault(nm[k]);
    trace("accept fails: %s", nm[k]);
    advance(g_now + 10 * us);
    if (e[k] == ECONNABORTED || e[k] == EPROTO) {
      // the connection itself is gone
      auto* c = f->backlog.front();
      f->backlog.pop_front();
      c->server_closed = c->disturbed = c->reset_seen_by_client = true;
      c->t_closed = g_now;
      at(g_now + 20 * us, [c] {
        if (c->peer) {
          c->peer->on_reset();
        }
      });
      edge(f->fd);
    }
    errno = e[k];
    return -1;
  }
  auto* c = f->backlog.front();
  f->backlog.pop_front();
  auto* n = newfd(K::conn);
  n->conn = c;
  c->fd = n->fd;
  c->accepted = true;
  c->t_accepted = g_now;
  fill_addr(*c, true, addr, len);
  trace("accept conn%d fd %d", c->id, n->fd);
  return n->fd;
}
int accept(int fd, struct sockaddr* addr, socklen_t* len)
{
  if (mine(fd)) {
    return do_accept(fd, addr, len);
  }
  REAL(accept);
  return real(fd, addr, len);
}
int accept4(int fd, struct sockaddr* addr, socklen_t* len, int flags)
{
  if (mine(fd)) {
    return do_accept(fd, addr, len);
  }
  REAL(accept4);
  return real(fd, addr, len, flags);
}
int getpeername(int fd, struct sockaddr* addr, socklen_t* len) noexcept
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    if (!f) {
      errno = EBADF;
      return -1;
    }
    if (!f->conn || f->conn->was_reset) {
      errno = ENOTCONN;
      return -1;
    }
    fill_addr(*f->conn, true, addr, len);
    return 0;
  }
  REAL(getpeername);
  return real(fd, addr, len);
}
int getsockname(int fd, struct sockaddr* addr, socklen_t* len) noexcept
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    if (!f) {
      errno = EBADF;
      return -1;
    }
    if (f->conn) {
      fill_addr(*f->conn, false, addr, len);
    } else {
      Conn c;
      c.local = f->family == AF_UNIX;
      c.path = f->path;
      c.ip = f->ip.empty() ? "0.0.0.0" : f->ip;
      c.local_port = f->port;
      fill_addr(c, false, addr, len);
    }
    return 0;
  }
  REAL(getsockname);
  return real(fd, addr, len);
}
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) noexcept
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    if (!f) {
      errno = EBADF;
      return -1;
    }
    if (f->kind == K::sock && bind_fault("setsockopt", { ENOBUFS, ENOMEM, EPERM })) {
      return -1;
    }
    if (l == SOL_SOCKET && o == SO_REUSEADDR && n >= sizeof(int)) {
      f->reuse = *static_cast<const int*>(v) != 0;
    }
    return 0;
  }
  REAL(setsockopt);
  return real(fd, l, o, v, n);
}
int getsockopt(int fd, int l, int o, void* v, socklen_t* n) noexcept
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    if (!f) {
      errno = EBADF;
      return -1;
    }
    int r = 0;
    if (l == SOL_SOCKET && o == SO_ERROR && f->conn) {
      r = f->conn->so_error;
      f->conn->so_error = 0;
    }
    memcpy(v, &r, std::min<std::size_t>(*n, sizeof r));
    return 0;
  }
  REAL(getsockopt);
  return real(fd, l, o, v, n);
}
int shutdown(int fd, int how) noexcept
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    if (!f) {
      errno = EBADF;
      return -1;
    }
    if (f->kind != K::conn || f->conn->was_reset) {
      errno = ENOTCONN;
      return -1;
    }
    auto& c = *f->conn;
    if (how == SHUT_RD || how == SHUT_RDWR) {
      c.rx_shut = true;
    }
    if (how == SHUT_WR || how == SHUT_RDWR) {
      if (!c.tx_shut) {
        c.tx_shut = true;
        trace("conn%d shutdown(send)", c.id);
        schedule_drain(c);
      }
    }
    edge(c);
    return 0;
  }
  REAL(shutdown);
  return real(fd, how);
}
int close(int fd)
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    if (!f) {
      count("close_ebadf");
      errno = EBADF;
      return -1;
    }
    if (f->kind == K::conn) {
      server_close_conn(*f->conn);
    } else if (f->kind == K::listen) {
      for (auto* c : f->backlog) {
        c->server_closed = true;
        c->reset_seen_by_client = true;
        if (c->peer) {
          auto* p = c->peer;
          at(g_now + 20 * us, [p] { p->on_reset(); });
        }
      }
    }
    for (auto& [e, p] : *g_fds) {
      if (p->kind == K::epoll) {
        p->interest.erase(fd);
      }
    }
    g_fds->erase(fd);
    return 0;
  }
  if (g_active && g_realfiles) {
    g_realfiles->erase(fd);
  }
  REAL(close);
  return real(fd);
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    if (!f) {
      errno = EBADF;
      return -1;
    }
    if (req == FIONBIO) {
      f->nonblock = *static_cast<int*>(arg) != 0;
    } else if (req == FIONREAD) {
      *static_cast<int*>(arg) = f->conn ? static_cast<int>(f->conn->rx.size() - f->conn->rx_pos) : 0;
    }
    return 0;
  }
  REAL(ioctl);
  return real(fd, req, arg);
}
static int do_fcntl(int fd, int cmd, long arg)
{
  auto* f = getfd(fd);
  if (!f) {
    errno = EBADF;
    return -1;
  }
  if (cmd == F_GETFL) {
    return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
  }
  if (cmd == F_SETFL) {
    f->nonblock = arg & O_NONBLOCK;
  }
  return 0;
}
int fcntl(int fd, int cmd, ...)
{
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (mine(fd)) {
    return do_fcntl(fd, cmd, arg);
  }
  REAL(fcntl);
  return real(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (mine(fd)) {
    return do_fcntl(fd, cmd, arg);
  }
  REAL(fcntl64);
  return real(fd, cmd, arg);
}

static ssize_t do_readv(int fd, const iovec* iov, int n)
{
  Inside in;
  auto* f = getfd(fd);
  if (!f) {
    errno = EBADF;
    return -1;
  }
  switch (f->kind) {
  case K::conn:
    return conn_recv(*f, iov, n);
  case K::eventfd: {
    if (f->cnt == 0) {
      errno = EAGAIN;
      return -1;
    }
    memcpy(iov[0].iov_base, &f->cnt, 8);
    f->cnt = 0;
    return 8;
  }
  case K::timerfd: {
    if (f->expiry > g_now) {
      errno = EAGAIN;
      return -1;
    }
    std::uint64_t one = 1;
    memcpy(iov[0].iov_base, &one, 8);
    f->expiry = INT64_MAX;
    return 8;
  }
  case K::file:
    return file_read(*f->file, iov, n, -1);
  default:
    errno = EINVAL;
    return -1;
  }
}
static ssize_t do_writev(int fd, const iovec* iov, int n)
{
  Inside in;
  auto* f = getfd(fd);
  if (!f) {
    errno = EBADF;
    return -1;
  }
  switch (f->kind) {
  case K::conn:
    return conn_send(*f, iov, n);
  case K::eventfd: {
    std::uint64_t v;
    memcpy(&v, iov[0].iov_base, 8);
    f->cnt += v;
    edge(fd);
    return 8;
  }
  case K::file:
    return file_write(*f->file, iov, n, -1);
  default:
    errno = EINVAL;
    return -1;
  }
}
ssize_t read(int fd, void* buf, size_t n)
{
  if (mine(fd)) {
    iovec v { buf, n };
    return do_readv(fd, &v, 1);
  }
  REAL(read);
  return real(fd, buf, n);
}
ssize_t readv(int fd, const struct iovec* v, int n)
{
  if (mine(fd)) {
    return do_readv(fd, v, n);
  }
  REAL(readv);
  return real(fd, v, n);
}
static OpenFile* realfile(int fd)
{
  if (!g_active || fd < 0 || !g_realfiles || g_realfiles->empty()) {
    return nullptr;
  }
  auto it = g_realfiles->find(fd);
  return it == g_realfiles->end() ? nullptr : it->second.get();
}
ssize_t write(int fd, const void* buf, size_t n)
{
  if (mine(fd)) {
    iovec v { const_cast<void*>(buf), n };
    return do_writev(fd, &v, 1);
  }
  if (auto* f = realfile(fd)) {
    iovec v { const_cast<void*>(buf), n };
    {
      Inside in;
      ssize_t r = file_write(*f, &v, 1, -1);
      return r;
    }
  }
  REAL(write);
  return real(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
  if (mine(fd)) {
    return do_writev(fd, v, n);
  }
  if (auto* f = realfile(fd)) {
    Inside in;
    return file_write(*f, v, n, -1);
  }
  REAL(writev);
  return real(fd, v, n);
}
ssize_t pread(int fd, void* buf, size_t n, off_t off)
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    iovec v { buf, n };
    if (!f || f->kind != K::file) {
      errno = EBADF;
      return -1;
    }
    return file_read(*f->file, &v, 1, off);
  }
  REAL(pread);
  return real(fd, buf, n, off);
}
ssize_t pwrite(int fd, const void* buf, size_t n, off_t off)
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    iovec v { const_cast<void*>(buf), n };
    if (!f || f->kind != K::file) {
      errno = EBADF;
      return -1;
    }
    return file_write(*f->file, &v, 1, off);
  }
  REAL(pwrite);
  return real(fd, buf, n, off);
}
ssize_t recv(int fd, void* buf, size_t n, int flags)
{
  if (mine(fd)) {
    iovec v { buf, n };
    return do_readv(fd, &v, 1);
  }
  REAL(recv);
  return real(fd, buf, n, flags);
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags)
{
  if (mine(fd)) {
    return do_readv(fd, m->msg_iov, static_cast<int>(m->msg_iovlen));
  }
  REAL(recvmsg);
  return real(fd, m, flags);
}
ssize_t send(int fd, const void* buf, size_t n, int flags)
{
  if (mine(fd)) {
    iovec v { const_cast<void*>(buf), n };
    return do_writev(fd, &v, 1);
  }
  REAL(send);
  return real(fd, buf, n, flags);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int flags)
{
  if (mine(fd)) {
    return do_writev(fd, m->msg_iov, static_cast<int>(m->msg_iovlen));
  }
  REAL(sendmsg);
  return real(fd, m, flags);
}
int poll(struct pollfd* p, nfds_t n, int timeout)
{
  if (n && mine(p[0].fd)) {
    Inside in;
    int k = 0;
    for (nfds_t i = 0; i < n; ++i) {
      auto* f = getfd(p[i].fd);
      p[i].revents = 0;
      if (!f) {
        p[i].revents = POLLNVAL;
      } else {
        auto m = mask_of(*f);
        p[i].revents = static_cast<short>(m & (static_cast<unsigned>(p[i].events) | POLLERR | POLLHUP));
      }
      k += p[i].revents != 0;
    }
    return k;
  }
  REAL(poll);
  return real(p, n, timeout);
}

int epoll_create1(int) noexcept
{
  if (g_active) {
    Inside in;
    return newfd(K::epoll)->fd;
  }
  errno = ENOSYS;
  return -1;
}
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) noexcept
{
  Inside in;
  auto* e = getfd(ep);
  if (!e || !getfd(fd)) {
    errno = EBADF;
    return -1;
  }
  if (getfd(fd)->kind == K::file) {
    errno = EPERM;
    return -1;
  }
  switch (op) {
  case EPOLL_CTL_ADD:
    if (e->interest.count(fd)) {
      errno = EEXIST;
      return -1;
    }
    [[fallthrough]];
  case EPOLL_CTL_MOD:
    if (op == EPOLL_CTL_MOD && !e->interest.count(fd)) {
      errno = ENOENT;
      return -1;
    }
    e->interest[fd] = Interest { ev->events, ev->data, 1 };
    return 0;
  default:
    if (!e->interest.erase(fd)) {
      errno = ENOENT;
      return -1;
    }
    return 0;
  }
}
int epoll_wait(int ep, struct epoll_event* evs, int maxevents, int timeout)
{
  auto* e = getfd(ep);
  if (!e) {
    errno = EBADF;
    return -1;
  }
  ns_t deadline = timeout < 0 ? INT64_MAX : g_now + static_cast<ns_t>(timeout) * ms;
  if (timeout > 0 && profile.eintr) {
    Inside in;
    if (chance("epoll", profile.eintr, 8192)) {
      fault("epoll_eintr");
      errno = EINTR;
      return -1;
    }
  }
  advance(g_now + 5 * us);
  if (timeout == 0) {
    deadline = g_now;
  }
  block([e] { return epoll_ready(*e); }, deadline);
  Inside in;
  std::vector<std::pair<int, std::uint32_t>> ready;
  for (auto& [fd, it] : e->interest) {
    if (auto m = ready_mask(fd, it)) {
      ready.emplace_back(fd, m);
    }
  }
  std::size_t n = std::min<std::size_t>(ready.size(), static_cast<std::size_t>(maxevents));
  if (ready.size() > 1 && profile.reorder && chance("epoll", profile.reorder, 1024)) {
    fault("event_reorder");
    for (std::size_t i = ready.size() - 1; i > 0; --i) {
      std::swap(ready[i], ready[pick("epoll", static_cast<std::uint32_t>(i + 1))]);
    }
    n = 1 + pick("epoll", static_cast<std::uint32_t>(n));
    n = std::min(n, ready.size());
  }
  for (std::size_t i = 0; i < n; ++i) {
    auto& it = e->interest[ready[i].first];
    it.edge = 0;
    evs[i].events = ready[i].second;
    evs[i].data = it.data;
    auto* f = getfd(ready[i].first);
    mixs("e", f && f->conn ? static_cast<std::uint64_t>(f->conn->id) + 100 : static_cast<std::uint64_t>(f ? static_cast<int>(f->kind) : 0));
  }
  if (n) {
    trace("epoll %zu ready", n);
  }
  return static_cast<int>(n);
}
int eventfd(unsigned init, int flags) noexcept
{
  if (g_active) {
    Inside in;
    auto* f = newfd(K::eventfd);
    f->cnt = init;
    f->nonblock = flags & EFD_NONBLOCK;
    return f->fd;
  }
  REAL(eventfd);
  return real(init, flags);
}
int timerfd_create(clockid_t, int) noexcept
{
  if (g_active) {
    Inside in;
    return newfd(K::timerfd)->fd;
  }
  errno = ENOSYS;
  return -1;
}
int timerfd_settime(int fd, int flags, const struct itimerspec* n, struct itimerspec*) noexcept
{
  Inside in;
  auto* f = getfd(fd);
  if (!f) {
    errno = EBADF;
    return -1;
  }
  ns_t v = n->it_value.tv_sec * sec + n->it_value.tv_nsec;
  if (n->it_value.tv_sec == 0 && n->it_value.tv_nsec == 0) {
    f->expiry = INT64_MAX;
  } else {
    f->expiry = (flags & TFD_TIMER_ABSTIME) ? v : g_now + v;
    auto gen = ++f->gen;
    at(f->expiry, [fd, gen] {
      auto* g = getfd(fd);
      if (g && g->kind == K::timerfd && g->gen == gen) {
        edge(fd);
      }
    });
  }
  return 0;
}

// ---- files
static bool simpath(const char* p) { return g_active && p && strncmp(p, fs_prefix.c_str(), fs_prefix.size()) == 0; }
static int open_sim(const char* path, int flags)
{
  Inside in;
  auto f = file_open(path, flags);
  if (!f) {
    return -1;
  }
  auto* d = newfd(K::file);
  d->file = std::move(f);
  trace("open %s -> %d", path, d->fd);
  int fd = d->fd;
  if (on_file_open) {
    on_file_open(path);
  }
  return fd;
}
int open(const char* path, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t mode = va_arg(ap, mode_t);
  va_end(ap);
  if (simpath(path)) {
    return open_sim(path, flags);
  }
  REAL(open);
  return real(path, flags, mode);
}
int open64(const char* path, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t mode = va_arg(ap, mode_t);
  va_end(ap);
  if (simpath(path)) {
    return open_sim(path, flags);
  }
  REAL(open64);
  return real(path, flags, mode);
}
static FILE* fopen_sim(const char* path, const char* mode)
{
  Inside in;
  int flags = mode[0] == 'a' ? O_WRONLY | O_CREAT | O_APPEND : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_RDONLY;
  auto f = file_open(path, flags);
  if (!f) {
    return nullptr;
  }
  static auto real = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen"));
  FILE* r = real("/dev/null", "ab");
  (*g_realfiles)[fileno(r)] = std::move(f);
  return r;
}
FILE* fopen(const char* path, const char* mode)
{
  if (simpath(path)) {
    return fopen_sim(path, mode);
  }
  REAL(fopen);
  return real(path, mode);
}
FILE* fopen64(const char* path, const char* mode)
{
  if (simpath(path)) {
    return fopen_sim(path, mode);
  }
  REAL(fopen64);
  return real(path, mode);
}
static void fill_stat(Inode& n, struct stat* s)
{
  memset(s, 0, sizeof *s);
  s->st_mode = S_IFREG | 0644;
  s->st_nlink = 1;
  s->st_size = static_cast<off_t>(n.data.size());
  s->st_blksize = 4096;
  s->st_mtim.tv_sec = n.mtime / sec;
  s->st_mtim.tv_nsec = n.mtime % sec;
}
static int stat_sim(const char* path, struct stat* s)
{
  Inside in;
  auto it = g_fs->find(path);
  if (it == g_fs->end()) {
    errno = ENOENT;
    return -1;
  }
  if (profile.file_open_err && chance("disk", profile.file_open_err, 8192)) {
    fault("file_stat_error");
    ++file_errors[path];
    errno = EIO;
    return -1;
  }
  fill_stat(*it->second, s);
  return 0;
}
int stat(const char* path, struct stat* s) noexcept
{
  if (simpath(path)) {
    return stat_sim(path, s);
  }
  REAL(stat);
  return real(path, s);
}
int lstat(const char* path, struct stat* s) noexcept
{
  if (simpath(path)) {
    return stat_sim(path, s);
  }
  REAL(lstat);
  return real(path, s);
}
int fstat(int fd, struct stat* s) noexcept
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    if (!f || f->kind != K::file) {
      errno = EBADF;
      return -1;
    }
    fill_stat(*f->file->ino, s);
    return 0;
  }
  REAL(fstat);
  return real(fd, s);
}
int ftruncate(int fd, off_t n) noexcept
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    if (!f || f->kind != K::file) {
      errno = EBADF;
      return -1;
    }
    f->file->ino->data.resize(static_cast<std::size_t>(n));
    return 0;
  }
  REAL(ftruncate);
  return real(fd, n);
}
off_t lseek(int fd, off_t off, int whence) noexcept
{
  if (mine(fd)) {
    Inside in;
    auto* f = getfd(fd);
    if (!f || f->kind != K::file) {
      errno = EBADF;
      return -1;
    }
    if (profile.file_read_err && chance("disk", profile.file_read_err, 16384)) {
      fault("file_seek_error");
      ++file_errors[f->file->path];
      errno = EIO;
      return -1;
    }
    auto& x = *f->file;
    std::int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<std::int64_t>(x.pos) : static_cast<std::int64_t>(x.ino->data.size());
    if (base + off < 0) {
      errno = EINVAL;
      return -1;
    }
    x.pos = static_cast<std::uint64_t>(base + off);
    return static_cast<off_t>(x.pos);
  }
  REAL(lseek);
  return real(fd, off, whence);
}
int fsync(int fd)
{
  if (mine(fd)) {
    return 0;
  }
  REAL(fsync);
  return real(fd);
}
int fdatasync(int fd)
{
  if (mine(fd)) {
    return 0;
  }
  REAL(fdatasync);
  return real(fd);
}
int posix_fadvise(int fd, off_t a, off_t b, int c) noexcept
{
  if (mine(fd)) {
    return 0;
  }
  REAL(posix_fadvise);
  return real(fd, a, b, c);
}

// ---- io_uring
int io_uring_queue_init(unsigned entries, struct io_uring* ring, unsigned)
{
  Inside in;
  memset(ring, 0, sizeof *ring);
  unsigned n = 1;
  while (n < entries) {
    n <<= 1;
  }
  auto u = std::make_unique<URing>();
  u->sqes.resize(n);
  u->cqes.resize(n * 4);
  u->array.resize(n);
  u->mask = n - 1;
  u->entries = n;
  u->cmask = n * 4 - 1;
  u->centries = n * 4;
  ring->sq.khead = &u->khead;
  ring->sq.ktail = &u->ktail;
  ring->sq.kring_mask = &u->mask;
  ring->sq.kring_entries = &u->entries;
  ring->sq.kflags = &u->kflags;
  ring->sq.kdropped = &u->kdropped;
  ring->sq.array = u->array.data();
  ring->sq.sqes = u->sqes.data();
  ring->sq.ring_mask = u->mask;
  ring->sq.ring_entries = u->entries;
  ring->cq.khead = &u->chead;
  ring->cq.ktail = &u->ctail;
  ring->cq.kring_mask = &u->cmask;
  ring->cq.kring_entries = &u->centries;
  ring->cq.kflags = &u->cflags;
  ring->cq.koverflow = &u->coverflow;
  ring->cq.cqes = u->cqes.data();
  ring->cq.ring_mask = u->cmask;
  ring->cq.ring_entries = u->centries;
  auto* f = newfd(K::uring);
  f->ring = ring;
  ring->ring_fd = f->fd;
  ring->enter_ring_fd = f->fd;
  (*g_rings)[f->fd] = std::move(u);
  return 0;
}
void io_uring_queue_exit(struct io_uring* ring)
{
  if (!g_active) {
    return;
  }
  Inside in;
  auto it = g_rings->find(ring->ring_fd);
  if (it == g_rings->end()) {
    return;
  }
  for (auto& op : it->second->pending) {
    op->live = false;
  }
  g_rings->erase(it);
  g_fds->erase(ring->ring_fd);
}
int io_uring_register_eventfd(struct io_uring* ring, int fd)
{
  g_rings->at(ring->ring_fd)->event_fd = fd;
  return 0;
}
int io_uring_register_buffers(struct io_uring*, const struct iovec*, unsigned) { return -EINVAL; }
int io_uring_unregister_buffers(struct io_uring*) { return -EINVAL; }
static void uop_finish(int rfd, std::shared_ptr<UOp> op)
{
  auto it = g_rings->find(rfd);
  if (it == g_rings->end() || !op->live) {
    return;
  }
  op->live = false;
  auto& r = *it->second;
  r.pending.erase(std::find(r.pending.begin(), r.pending.end(), op));
  ssize_t n = op->opcode == IORING_OP_READV || op->opcode == IORING_OP_READ
      ? file_read(*op->file, op->iov.data(), static_cast<int>(op->iov.size()), op->off)
      : file_write(*op->file, op->iov.data(), static_cast<int>(op->iov.size()), op->off);
  cqe(r, op->user_data, n < 0 ? -errno : static_cast<int>(n));
}
int io_uring_submit(struct io_uring* ring)
{
  Inside in;
  int rfd = ring->ring_fd;
  auto it = g_rings->find(rfd);
  if (it == g_rings->end()) {
    return -EBADF;
  }
  auto& r = *it->second;
  int n = 0;
  while (ring->sq.sqe_head != ring->sq.sqe_tail) {
    auto& s = r.sqes[ring->sq.sqe_head & r.mask];
    ++ring->sq.sqe_head;
    ++n;
    switch (s.opcode) {
    case IORING_OP_READV:
    case IORING_OP_WRITEV:
    case IORING_OP_READ:
    case IORING_OP_WRITE: {
      auto op = std::make_shared<UOp>();
      op->user_data = s.user_data;
      op->opcode = s.opcode;
      op->fd = s.fd;
      op->off = static_cast<std::int64_t>(s.off);
      if (s.opcode == IORING_OP_READV || s.opcode == IORING_OP_WRITEV) {
        auto* v = reinterpret_cast<const iovec*>(s.addr);
        op->iov.assign(v, v + s.len);
      } else {
        op->iov.push_back(iovec { reinterpret_cast<void*>(s.addr), s.len });
      }
      if (auto* f = getfd(s.fd); f && f->kind == K::file) {
        op->file = f->file;
      } else if (s.fd == 1 || s.fd == 2) {
        op->file = std::make_shared<OpenFile>();
        op->file->is_stdout = true;
      } else {
        cqe(r, s.user_data, -EBADF);
        break;
      }
      r.pending.push_back(op);
      ns_t d = 30 * us;
      if (profile.file_delay && chance("disk", profile.file_delay, 1024)) {
        fault("disk_delay");
        static const ns_t ds[] = { 200 * us, 5 * ms, 100 * ms, 1 * sec };
        d = ds[pick("disk", 4)];
      }
      at(g_now + d, [rfd, op] { uop_finish(rfd, op); });
      break;
    }
    case IORING_OP_ASYNC_CANCEL: {
      int res = -ENOENT;
      for (auto& op : r.pending) {
        if (op->live && op->user_data == s.addr) {
          op->live = false;
          cqe(r, op->user_data, -ECANCELED);
          r.pending.erase(std::find(r.pending.begin(), r.pending.end(), op));
          res = 0;
          break;
        }
      }
      cqe(r, s.user_data, res);
      break;
    }
    case IORING_OP_NOP:
      cqe(r, s.user_data, 0);
      break;
    default:
      cqe(r, s.user_data, -EINVAL);
    }
  }
  r.khead = ring->sq.sqe_head;
  r.ktail = ring->sq.sqe_tail;
  return n;
}
int __io_uring_get_cqe(struct io_uring* ring, struct io_uring_cqe** out, unsigned, unsigned wait_nr, sigset_t*)
{
  auto it = g_rings->find(ring->ring_fd);
  if (it == g_rings->end()) {
    return -EBADF;
  }
  auto* r = it->second.get();
  if (r->chead == r->ctail) {
    if (wait_nr == 0) {
      return -EAGAIN;
    }
    if (r->pending.empty()) {
      return -EINTR; // nothing would ever complete
    }
    block([r] { return r->chead != r->ctail; }, INT64_MAX);
  }
  *out = &r->cqes[r->chead & r->cmask];
  return 0;
}

// ---- misc
long sysconf(int name) noexcept
{
  if (g_active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) {
    return n_cpus;
  }
  REAL(sysconf);
  return real(name);
}
int get_nprocs() noexcept { return g_active ? static_cast<int>(n_cpus) : 4; }

// ---------------------------------------------------------------- threads
struct Mx {
  Task* owner = nullptr;
  int count = 0;
};
static std::unordered_map<const void*, Mx>& mxs()
{
  static auto* m = new std::unordered_map<const void*, Mx>();
  return *m;
}
struct Cw {
  Task* t;
  bool signaled;
};
static std::unordered_map<const void*, std::deque<Cw*>>& cvs()
{
  static auto* m = new std::unordered_map<const void*, std::deque<Cw*>>();
  return *m;
}
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

static void mx_acquire(pthread_mutex_t* m)
{
  Inside in;
  auto& x = mxs()[m];
  if (x.owner == t_self) {
    if (recursive(m)) {
      ++x.count;
      return;
    }
    hang("self deadlock on a mutex");
  }
  if (x.owner) {
    block([m] { return mxs()[m].owner == nullptr; }, INT64_MAX);
  }
  auto& y = mxs()[m];
  y.owner = t_self;
  y.count = 1;
}
static void mx_release(pthread_mutex_t* m)
{
  auto& x = mxs()[m];
  if (--x.count == 0) {
    mxs().erase(m);
  }
}

int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
  if (managed()) {
    preempt();
    mx_acquire(m);
    return 0;
  }
  REAL(pthread_mutex_lock);
  return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
  if (managed()) {
    Inside in;
    auto it = mxs().find(m);
    if (it != mxs().end() && it->second.owner) {
      if (it->second.owner == t_self && recursive(m)) {
        ++it->second.count;
        return 0;
      }
      return EBUSY;
    }
    mxs()[m] = Mx { t_self, 1 };
    return 0;
  }
  REAL(pthread_mutex_trylock);
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
  if (managed()) {
    {
      Inside in;
      if (mxs().find(m) == mxs().end()) {
        REAL(pthread_mutex_unlock);
        return real(m);
      }
      mx_release(m);
    }
    preempt();
    return 0;
  }
  REAL(pthread_mutex_unlock);
  return real(m);
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, ns_t deadline)
{
  Inside in;
  Cw w { t_self, false };
  cvs()[c].push_back(&w);
  int depth = mxs()[m].count;
  mxs().erase(m);
  bool ok = block([&w, m] { return w.signaled && mxs().find(m) == mxs().end(); }, deadline);
  (void)ok;
  auto it = cvs().find(c);
  if (it != cvs().end()) {
    auto& q = it->second;
    q.erase(std::remove(q.begin(), q.end(), &w), q.end());
    if (q.empty()) {
      cvs().erase(it);
    }
  }
  if (mxs().find(m) != mxs().end()) {
    block([m] { return mxs().find(m) == mxs().end(); }, INT64_MAX);
  }
  mxs()[m] = Mx { t_self, depth };
  return w.signaled ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  if (managed()) {
    return cond_wait(c, m, INT64_MAX);
  }
  REAL(pthread_cond_wait);
  return real(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
  if (managed()) {
    // asio conditions use CLOCK_MONOTONIC, others CLOCK_REALTIME: tell them
    // apart by magnitude
    ns_t v = t->tv_sec * sec + t->tv_nsec;
    if (v > 1000000000ll * sec) {
      v -= realtime() - g_now;
    }
    return cond_wait(c, m, v);
  }
  REAL(pthread_cond_timedwait);
  return real(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* t)
{
  if (managed()) {
    ns_t v = t->tv_sec * sec + t->tv_nsec;
    if (clk == CLOCK_REALTIME) {
      v -= realtime() - g_now;
    }
    return cond_wait(c, m, v);
  }
  REAL(pthread_cond_clockwait);
  return real(c, m, clk, t);
}
static void cond_signal(pthread_cond_t* c, bool all)
{
  Inside in;
  auto it = cvs().find(c);
  if (it == cvs().end()) {
    return;
  }
  std::vector<Cw*> waiting;
  for (auto* w : it->second) {
    if (!w->signaled) {
      waiting.push_back(w);
    }
  }
  if (waiting.empty()) {
    return;
  }
  if (all) {
    for (auto* w : waiting) {
      w->signaled = true;
    }
  } else {
    waiting[waiting.size() > 1 ? pick("sched.signal", static_cast<std::uint32_t>(waiting.size())) : 0]->signaled = true;
  }
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
  if (managed()) {
    cond_signal(c, false);
    preempt();
    return 0;
  }
  REAL(pthread_cond_signal);
  return real(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
  if (managed()) {
    cond_signal(c, true);
    preempt();
    return 0;
  }
  REAL(pthread_cond_broadcast);
  return real(c);
}

static void* task_main(void* p)
{
  auto* t = static_cast<Task*>(p);
  wait_go(t);
  t_self = t;
  t->ret = t->fn(t->arg);
  {
    Inside in;
    t->done = true;
    trace("task %d ends", t->id);
    auto* next = choose_next();
    t_self = nullptr;
    wake(next);
  }
  return t->ret;
}
int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) noexcept
{
  REAL(pthread_create);
  if (managed()) {
    {
      Inside in;
      auto* t = new Task();
      t->id = static_cast<int>(g_tasks->size());
      t->fn = fn;
      t->arg = arg;
      int r = real(th, attr, task_main, t);
      if (r != 0) {
        return r;
      }
      t->th = *th;
      g_tasks->push_back(t);
      trace("task %d created", t->id);
      count("threads_created");
    }
    preempt();
    return 0;
  }
  return real(th, attr, fn, arg);
}
int pthread_join(pthread_t th, void** ret)
{
  if (managed()) {
    Inside in;
    for (auto* t : *g_tasks) {
      if (pthread_equal(t->th, th) && !t->detached) {
        if (!t->done) {
          block([t] { return t->done; }, INT64_MAX);
        }
        t->detached = true;
        break;
      }
    }
  }
  REAL(pthread_join);
  return real(th, ret);
}

struct Fw {
  bool woken = false;
};
static std::unordered_map<const void*, std::deque<Fw*>>& fws()
{
  static auto* m = new std::unordered_map<const void*, std::deque<Fw*>>();
  return *m;
}
// reads all six arguments as the C library does, although few calls pass that many
__attribute__((no_sanitize("address"))) long syscall(long n, ...) noexcept
{
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& x : a) {
    x = va_arg(ap, long);
  }
  va_end(ap);
  if (n == SYS_futex && managed()) {
    auto* addr = reinterpret_cast<int*>(a[0]);
    int op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      Inside in;
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(a[2])) {
        errno = EAGAIN;
        return -1;
      }
      ns_t dl = INT64_MAX;
      if (auto* ts = reinterpret_cast<const timespec*>(a[3])) {
        ns_t v = ts->tv_sec * sec + ts->tv_nsec;
        if (op == FUTEX_WAIT) {
          dl = g_now + v;
        } else if (a[1] & FUTEX_CLOCK_REALTIME) {
          dl = v - (realtime() - g_now);
        } else {
          dl = v;
        }
      }
      Fw w;
      fws()[addr].push_back(&w);
      block([&w] { return w.woken; }, dl);
      auto& q = fws()[addr];
      q.erase(std::remove(q.begin(), q.end(), &w), q.end());
      if (q.empty()) {
        fws().erase(addr);
      }
      if (!w.woken) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long k = 0;
      {
        Inside in;
        auto it = fws().find(addr);
        if (it != fws().end()) {
          for (auto* w : it->second) {
            if (k >= a[2]) {
              break;
            }
            if (!w->woken) {
              w->woken = true;
              ++k;
            }
          }
        }
      }
      preempt();
      return k;
    }
  }
  static auto real = reinterpret_cast<long (*)(long, ...)>(dlsym(RTLD_NEXT, "syscall"));
  return real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

} // extern "C"

// ---------------------------------------------------------------- memory
static void* sim_alloc(std::size_t n, std::size_t al)
{
  if (alloc_fail_at >= 0 && t_inside == 0) {
    if (alloc_fail_at-- == 0) {
      alloc_failed = true;
      ++faults["alloc_failure"];
      return nullptr;
    }
  }
  void* p = al > alignof(std::max_align_t) ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (alloc_track && p) {
    alloc_live_bytes += static_cast<std::int64_t>(malloc_usable_size(p));
    ++alloc_live_blocks;
  }
  return p;
}
static void sim_free(void* p)
{
  if (p && alloc_track) {
    alloc_live_bytes -= static_cast<std::int64_t>(malloc_usable_size(p));
    --alloc_live_blocks;
  }
  free(p);
}
void* operator new(std::size_t n)
{
  if (void* p = sim_alloc(n, 0)) {
    return p;
  }
  throw std::bad_alloc();
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, 0); }
void* operator new(std::size_t n, std::align_val_t a)
{
  if (void* p = sim_alloc(n, static_cast<std::size_t>(a))) {
    return p;
  }
  throw std::bad_alloc();
}
void* operator new[](std::size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, std::size_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::size_t) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { sim_free(p); }
