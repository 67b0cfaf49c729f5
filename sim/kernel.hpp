// Simulated kernel: the whole environment of the code under test (sockets,
// epoll, eventfd, timerfd, io_uring, files, clocks, threads, entropy) lives
// behind symbol interposition in one process and is driven by one seed.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

using ns_t = std::int64_t;
constexpr ns_t us = 1000, ms = 1000 * us, sec = 1000 * ms;

// ---------------------------------------------------------------- choices
// Every nondeterministic decision is drawn from a named stream. In generate
// mode the value comes from a PRNG seeded by (seed, stream name); in replay
// mode from the recorded list, and from then on 0, which always means "the
// plain thing happens" (no fault, no delay, first in the queue).
struct Choices {
  std::uint64_t seed = 0;
  bool replay = false;
  struct Stream {
    std::uint64_t s = 0;
    std::vector<std::uint32_t> rec;
    std::size_t pos = 0;
  };
  std::map<std::string, Stream, std::less<>> streams;
  Stream& get(std::string_view name);
  std::uint32_t pick(std::string_view name, std::uint32_t n); // [0, n)
  std::uint64_t raw(Stream& st);
  // true with probability num/den
  bool chance(std::string_view name, std::uint32_t num, std::uint32_t den);
};
extern Choices choices;
inline std::uint32_t pick(std::string_view s, std::uint32_t n) { return choices.pick(s, n); }
inline bool chance(std::string_view s, std::uint32_t num, std::uint32_t den) { return choices.chance(s, num, den); }
// inclusive range
inline std::uint32_t range(std::string_view s, std::uint32_t lo, std::uint32_t hi) { return lo + pick(s, hi - lo + 1); }

// ---------------------------------------------------------------- profile
// Per-run fault intensities (x/1024), drawn at start (swarm) or all zero.
struct Profile {
  std::uint32_t split = 0;        // request bytes are split into segments
  std::uint32_t delay = 0;        // segments are delayed
  std::uint32_t stall = 0;        // a link stalls (partition) and heals
  std::uint32_t short_write = 0;  // sendmsg accepts a prefix
  std::uint32_t short_read = 0;   // recvmsg returns a prefix
  std::uint32_t eagain = 0;       // spurious EAGAIN although ready
  std::uint32_t eintr = 0;        // EINTR
  std::uint32_t small_sndbuf = 0; // tiny send buffer
  std::uint32_t accept_err = 0;   // EMFILE/ENFILE/ECONNABORTED/...
  std::uint32_t cpu = 0;          // node is slow: time passes between steps
  std::uint32_t reorder = 0;      // ready events reported in another order/subset
  std::uint32_t send_err = 0;     // sendmsg fails (ECONNRESET/ENOBUFS)
  std::uint32_t recv_err = 0;     // recvmsg fails
  std::uint32_t file_open_err = 0;
  std::uint32_t file_read_err = 0;
  std::uint32_t file_write_err = 0; // EIO/ENOSPC
  std::uint32_t file_short = 0;     // short reads / writes
  std::uint32_t file_delay = 0;
  std::uint32_t thread_switch = 0;  // pre-emption at synchronisation points
  std::uint32_t clock_jump = 0;     // realtime clock jumps
  std::uint32_t bind_err = 0;       // socket/setsockopt/bind/listen fail
};
extern Profile profile;

// ---------------------------------------------------------------- world
void start(std::uint64_t seed);   // activate interposition
void stop();                      // deactivate
bool active();
ns_t now();                       // virtual monotonic time
void at(ns_t when, std::function<void()> fn);
inline void after(ns_t d, std::function<void()> fn) { at(now() + d, std::move(fn)); }
bool events_pending();
// Blocks the calling task until nothing else can happen (other than wake-ups
// more than idle_horizon away).
void wait_idle();
void sleep_until(ns_t t);
extern ns_t idle_horizon;
extern std::function<void()> on_step; // called at every scheduling point (not during on_idle)
extern std::uint64_t step_count, step_limit;
extern void (*on_hang)();
[[noreturn]] void hang(const std::string& why);

void fault(const char* kind);     // a fault fired
void count(const std::string& counter, std::uint64_t n = 1);
extern std::map<std::string, std::uint64_t> faults, counters;

void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool trace_on;
extern std::vector<std::string> trace_lines;
extern std::uint64_t trace_hash, sched_hash;

// ---------------------------------------------------------------- network
struct Conn;
// The remote end of a connection, implemented by simulated clients.
struct Peer {
  virtual ~Peer() = default;
  virtual void on_connected() { }
  virtual void on_refused() { }
  virtual void on_data(std::string_view) { }
  virtual void on_fin() { }
  virtual void on_reset() { }
};

struct Conn {
  int id = 0;
  std::string label;
  Peer* peer = nullptr;
  int fd = -1;            // server side fd, -1 before accept / after close
  bool local = false;     // AF_UNIX
  std::string path;       // of the listener, if AF_UNIX
  std::string ip = "127.0.0.1", peer_ip; // what the client connected to, and from (default: by id)
  std::uint16_t peer_port = 0, local_port = 0;
  bool accepted = false;
  bool server_closed = false;
  // towards the server
  std::string rx;
  std::size_t rx_pos = 0;
  bool rx_fin = false, rx_shut = false;
  int so_error = 0;
  bool was_reset = false;       // RST arrived at the server
  ns_t last_in = 0;
  bool fin_sent = false, client_gone = false;
  // towards the client
  std::string tx;               // accepted by the kernel, not delivered
  std::size_t tx_cap = 256 * 1024;
  bool tx_shut = false, tx_fin_delivered = false;
  bool drain_scheduled = false;
  bool tx_short = false;        // the server's last send was cut short
  bool congested() const { return tx_short || !tx.empty(); }
  bool paused = false;          // client does not read
  ns_t last_out = 0;
  ns_t stall_until = 0;
  std::uint64_t bytes_in = 0, bytes_out = 0, bytes_taken = 0;
  std::uint64_t got_by_server = 0; // bytes handed to recvmsg
  bool reset_seen_by_client = false;
  ns_t t_closed = -1, t_accepted = -1, t_connected = -1, t_last_recv = -1, t_last_sent = -1;
  std::vector<std::pair<ns_t, std::uint64_t>> recv_log; // when the server had taken how many bytes
  // faults that make a strict expectation impossible on this connection
  bool disturbed = false;
  std::string io; // label of the choice stream

  // client-side operations
  void send(std::string_view data);
  void shutdown_send(); // FIN
  void close();         // client goes away (FIN now, RST on later data)
  void reset();         // RST
  void pause(bool on);
  void stall(ns_t d);
};
// Connect to a listening port / unix path. Owned by the simulator.
Conn* connect(Peer* peer, std::uint16_t port, const std::string& label);
Conn* connect_local(Peer* peer, const std::string& path, const std::string& label);
Conn* connect_to(Peer* peer, const std::string& ip, std::uint16_t port, const std::string& label); // IPv4 or IPv6
bool listening(std::uint16_t port);
int listener_backlog(const std::string& ip, std::uint16_t port, const std::string& path); // -1: nobody listens
bool socket_file(const std::string& path);   // a socket was bound to this path
extern bool last_bind_injected;
extern int last_bind_error;   // errno of the last socket/setsockopt/bind/listen that failed, by injection or not
int open_fds();               // simulated descriptors open (all kinds)
std::string open_fds_text();
int open_conn_fds();
int open_sockets();           // that listen or are not connected
int pending_backlog();

// ---------------------------------------------------------------- files
struct Inode {
  std::string data;
  std::string durable;   // content that survives a crash
  ns_t mtime = 0;        // realtime
  int opens = 0;
};
std::map<std::string, std::shared_ptr<Inode>>& fs();
extern std::string fs_prefix;
extern std::uint64_t disk_free;
extern std::function<void(const std::string& path, Inode&, std::uint64_t off, std::uint64_t n)> on_file_read;
extern std::function<void(const std::string& path)> on_file_open; // just opened
extern std::map<std::string, unsigned> file_errors; // failed operations by path
extern std::vector<std::string> stdout_data; // writes to simulated fd 1

// ---------------------------------------------------------------- memory
extern bool alloc_track;
extern std::int64_t alloc_live_bytes, alloc_live_blocks;
extern std::int64_t alloc_fail_at; // count down; -1 off
extern bool alloc_failed;

// ---------------------------------------------------------------- threads
void thread_yield(const char* why);   // pre-emption point
int thread_count();
int self_id();
extern std::uint32_t n_cpus;

ns_t realtime();
} // namespace sim
