// Servers that are bound to any number of endpoints, before and while they
// run, some of which are invalid, taken, or refused by the system.
#include "app_bind.hpp"
#include "harness.hpp"
#include "seq_client.hpp"
#include <cerrno>
#include <cstring>
#include <set>
#include <sys/socket.h>
#include <thread>

namespace sim {
BindWorld bind_world;
BindFactory bind_factory;

namespace {
const char* const PROPS = "H10";
const char* const kind_name[] = { "tcp", "tls", "local", "tls-local" };

struct Attempt {
  BindKind kind;
  std::string addr;
  std::uint16_t port = 0;
  bool valid = true;
  bool is_local() const { return kind == BindKind::local || kind == BindKind::tls_local; }
  bool is_tls() const { return kind == BindKind::tls || kind == BindKind::tls_local; }
  std::string text() const
  {
    auto a = addr.size() > 40 ? addr.substr(0, 12) + "...(" + std::to_string(addr.size()) + " bytes)" : addr;
    return std::string(kind_name[static_cast<int>(kind)]) + " '" + a + "'" + (is_local() ? "" : " " + std::to_string(port));
  }
};

bool overlap(const Attempt& a, const Attempt& b)
{
  if (a.is_local() != b.is_local()) {
    return false;
  }
  if (a.is_local()) {
    return a.addr == b.addr;
  }
  if (a.port != b.port) {
    return false;
  }
  auto v6 = [](const Attempt& x) { return x.addr.find(':') != std::string::npos; };
  auto any = [&](const Attempt& x, const Attempt& y) { return x.addr == "::" || (x.addr == "0.0.0.0" && !v6(y)); };
  return a.addr == b.addr || any(a, b) || any(b, a);
}

Attempt draw_attempt()
{
  Attempt a;
  a.kind = static_cast<BindKind>(pick("bind", 4));
  if (a.is_local()) {
    auto name = fs_prefix + "sock" + std::to_string(pick("bind", 4));
    switch (pick("bind", 8)) {
    case 5: name += "-" + std::string(107 - name.size() - 1, 'x'); break; // the longest there is
    case 6: name += "-" + std::string(108 - name.size() - 1, 'y'); break;
    case 7: name += "-" + std::string(range("bind", 109, 400), 'z'); break;
    default: break;
    }
    a.addr = name;
    a.valid = name.size() < 108;
    return a;
  }
  static const std::uint16_t ports[] = { 8080, 8081, 443 };
  a.port = ports[pick("bind", 3)];
  static const char* const good[] = { "127.0.0.1", "0.0.0.0", "10.0.0.7", "::1", "::", "fd00::5", "192.168.1.20", "127.0.0.2" };
  static const char* const bad[] = { "localhost", "", "300.1.1.1", "127.0.0.1:80", " 127.0.0.1", "1.2.3", "::g", "1.2.3.4.5", "[::1]", "*" };
  if (pick("bind", 5) == 4) {
    a.addr = bad[pick("bind", 10)];
    a.valid = false;
  } else {
    a.addr = good[pick("bind", 8)];
  }
  return a;
}

struct World {
  std::unique_ptr<BindApp> app;
  BindConfig cfg;
  std::vector<Attempt> bound;
  std::vector<std::unique_ptr<SeqClient>> clients;
  int label = 0;

  // tries to bind and judges the outcome
  bool attempt(const Attempt& a, const std::vector<Attempt>& others)
  {
    auto sockets = open_sockets();
    bool taken = a.is_local() ? socket_file(a.addr) : false;
    for (auto* v : { static_cast<const std::vector<Attempt>*>(&bound), &others }) {
      for (auto& b : *v) {
        taken |= overlap(a, b);
      }
    }
    last_bind_error = 0;
    last_bind_injected = false;
    auto r = app->bind(a.kind, a.addr, a.port);
    trace("bind %s: %s", a.text().c_str(), r.ok ? "ok" : r.threw.empty() ? r.text.c_str() : r.threw.c_str());
    count(r.ok ? "binds_done" : "binds_failed");
    auto err = [](int e) { return std::string(e ? strerrorname_np(e) : "no error"); };
    if (!r.threw.empty()) {
      violation(PROPS, "bind throws", a.text() + ": " + r.threw);
      return false;
    }
    if (last_bind_injected) {
      if (r.ok) {
        violation(PROPS, "error not reported", a.text() + ": the system reported " + err(last_bind_error) + ", bind reported success");
      } else if (r.error != last_bind_error) {
        violation(PROPS, "wrong error", a.text() + ": the system reported " + err(last_bind_error) + ", bind reported " + r.text);
      }
    } else if (!a.valid) {
      if (r.ok) {
        violation(PROPS, "invalid address accepted", a.text());
      } else if (r.error == 0) {
        violation(PROPS, "wrong error", a.text() + ": reported as no error");
      }
    } else if (taken) {
      if (r.ok) {
        violation(PROPS, "error not reported", a.text() + " is taken, bind reported success");
      } else if (r.error != EADDRINUSE) {
        violation(PROPS, "wrong error", a.text() + " is taken, bind reported " + r.text);
      }
    } else if (!r.ok) {
      violation(PROPS, "bind fails", a.text() + ": " + r.text + " (" + err(last_bind_error) + " from the system) although nothing stands against it");
    }
    auto now_open = open_sockets();
    if (r.ok) {
      if (!r.self) {
        violation(PROPS, "wrong server", a.text() + ": the result is not the server that was bound");
      }
      bool there = listener_backlog(a.is_local() ? "" : a.addr, a.port, a.is_local() ? a.addr : "") >= 0;
      if (now_open != sockets + 1 || !there) {
        violation(PROPS, "not listening", a.text() + ": bind reported success but nobody listens there: " + open_fds_text());
        return false;
      }
      auto n = listener_backlog(a.is_local() ? "" : a.addr, a.port, a.is_local() ? a.addr : "");
      auto want = cfg.backlog >= 0 ? cfg.backlog : SOMAXCONN;
      if (n != want || app->max_listen_connections() != want) {
        violation(PROPS, "wrong backlog", a.text() + ": listens with a backlog of " + std::to_string(n) + ", asked for " + std::to_string(want));
      }
      bound.push_back(a);
    } else if (now_open != sockets) {
      violation(PROPS, "failed bind leaves a socket", a.text() + ": " + open_fds_text());
    }
    return r.ok;
  }

  void add_client(const Attempt& a)
  {
    auto c = std::make_unique<SeqClient>();
    c->label = "c" + std::to_string(label++);
    c->st = "client/" + c->label;
    c->tls = a.is_tls();
    std::string ip = a.addr, want;
    if (a.is_local()) {
      c->dial = [path = a.addr](Peer* p, const std::string& l) { return connect_local(p, path, l); };
    } else {
      if (ip == "0.0.0.0") {
        static const char* const via[] = { "127.0.0.1", "10.0.0.9" };
        ip = via[pick(c->st, 2)];
      } else if (ip == "::") {
        static const char* const via[] = { "::1", "fd00::9" };
        ip = via[pick(c->st, 2)];
      }
      c->dial = [ip, port = a.port](Peer* p, const std::string& l) { return connect_to(p, ip, port, l); };
    }
    auto n = range(c->st, 1, 4);
    for (std::uint32_t k = 0; k < n; ++k) {
      Step s;
      s.gap = pick(c->st, 2) ? 0 : range(c->st, 1, 40) * ms;
      auto id = c->label + "-" + std::to_string(k);
      s.rid = id;
      if (pick(c->st, 3) == 2) {
        auto body = text_blob(range(c->st, 1, 1000), range(c->st, 0, 3000));
        s.what = "echo at " + a.text();
        s.rq.method = "POST";
        s.rq.target = "/echo";
        s.rq.headers = { { "Host", "h" }, { "Content-Type", "text/plain" } };
        s.rq.framing = http::Request::length;
        s.rq.body = body;
        s.judge = [body](const Step& st, const std::string& what) {
          if (st.resp.status != 200 || st.resp.body != body) {
            violation(PROPS, "wrong answer", what + ": " + std::to_string(st.resp.status) + " " + show(st.resp.body));
          }
        };
      } else {
        s.what = "who at " + a.text();
        s.rq.target = "/who";
        s.rq.headers = { { "Host", "h" } };
        auto* cp = c.get();
        auto local = a.is_local() ? a.addr : ip;
        s.judge = [cp, local, unix_ = a.is_local()](const Step& st, const std::string& what) {
          std::string peer;
          for (auto& w : cp->wires) {
            if (w->conn && w->conn->id == st.conn && !unix_) {
              peer = w->conn->peer_ip;
            }
          }
          if (st.resp.status != 200 || st.resp.body != local + "|" + peer) {
            violation(PROPS, "wrong answer", what + ": " + std::to_string(st.resp.status) + " " + show(st.resp.body, 300) + ", expected " + local + "|" + peer);
          }
        };
      }
      if (pick(c->st, 4) == 3) {
        s.rq.headers.push_back({ "Connection", "close" });
      }
      c->steps.push_back(std::move(s));
    }
    auto* cp = c.get();
    after(range(c->st, 0, 60) * ms, [cp] { cp->go(); });
    clients.push_back(std::move(c));
  }

  void judge_clients()
  {
    for (auto& c : clients) {
      c->settle();
      for (std::size_t i = 0; i < c->steps.size(); ++i) {
        auto& s = c->steps[i];
        auto id = c->label + " step " + std::to_string(i) + " (" + s.what + ")";
        if (s.state == Step::done) {
          count("answered");
          s.judge(s, id);
        } else if (s.state == Step::failed && !s.disturbed) {
          violation(PROPS, "no answer", id);
        } else if (s.state == Step::unsent && (i == 0 || c->steps[i - 1].state == Step::done)) {
          auto* w = c->wire();
          if (w && w->conn && !w->conn->disturbed && !w->rst) {
            violation(PROPS, "no service", id + ": " + (w->refused ? "connection refused" : w->connected ? "no session" : "never connected"));
          }
        }
      }
      if (c->chaos) {
        violation(PROPS, "not HTTP", c->label + ": " + c->chaos_text);
      }
    }
  }
};

void run_bind()
{
  deterministic_openssl();
  bind_world = BindWorld {};
  draw_profile({
      { &Profile::bind_err, { 60, 300 } },
      { &Profile::split, { 100, 500 } },
      { &Profile::delay, { 100, 500 } },
      { &Profile::short_write, { 200, 900 } },
      { &Profile::short_read, { 200, 1500 } },
      { &Profile::eagain, { 300, 2000 } },
      { &Profile::eintr, { 300, 2000 } },
      { &Profile::cpu, { 20, 200 } },
      { &Profile::reorder, { 100, 700 } },
      { &Profile::accept_err, { 50, 300 } },
      { &Profile::thread_switch, { 100, 600 } },
  });
  std::vector<Attempt> again, none;
  std::vector<std::unique_ptr<SeqClient>> kept; // events that are still to come know them
  auto rounds = range("cfg", 1, 2);
  for (std::uint32_t round = 0; round < rounds; ++round) {
    World w;
    static const int backlogs[] = { -1, -1, 0, 1, 5, 128, 1000 };
    w.cfg.backlog = backlogs[pick("cfg", 7)];
    w.cfg.threads = pick("cfg", 4) == 3 ? 2 : 1;
    w.app = bind_factory(w.cfg);
    // where the server before this one listened
    for (auto& a : again) {
      w.attempt(a, none);
    }
    auto n = range("cfg", 1, 6);
    for (std::uint32_t i = 0; i < n; ++i) {
      w.attempt(draw_attempt(), none);
    }
    // a second server in the same process
    std::unique_ptr<World> other;
    if (pick("cfg", 4) == 3) {
      other = std::make_unique<World>();
      other->cfg = w.cfg;
      other->app = bind_factory(w.cfg);
      auto m = range("cfg", 1, 4);
      for (std::uint32_t i = 0; i < m; ++i) {
        auto a = !w.bound.empty() && pick("cfg", 2) ? w.bound[pick("cfg", static_cast<std::uint32_t>(w.bound.size()))] : draw_attempt();
        other->attempt(a, w.bound);
      }
      if (pick("cfg", 2)) {
        other->app.reset(); // never runs
        other.reset();
        for (auto& a : w.bound) {
          if (listener_backlog(a.is_local() ? "" : a.addr, a.port, a.is_local() ? a.addr : "") < 0) {
            violation(PROPS, "not listening", a.text() + ": the listener is gone along with another server");
          }
        }
      }
    }
    if (pick("cfg", 8) != 7) {
      std::vector<World*> ws { &w };
      if (other) {
        ws.push_back(other.get());
      }
      std::vector<std::thread> threads;
      for (auto* x : ws) {
        threads.emplace_back([x] { x->app->run(); });
      }
      std::vector<Attempt> empty;
      for (auto* x : ws) {
        // a backlog too small for them all turns connections away
        auto limit = x->cfg.backlog >= 0 && x->cfg.backlog < 5 ? 1U : 3U;
        for (auto a : std::vector<Attempt>(x->bound)) {
          auto c = range("cfg", 1, limit);
          for (std::uint32_t i = 0; i < c; ++i) {
            x->add_client(a);
          }
        }
        // binding goes on while the server runs
        auto late = pick("cfg", 3);
        for (std::uint32_t i = 0; i < late; ++i) {
          sleep_until(now() + range("cfg", 0, 30) * ms);
          auto a = draw_attempt();
          if (x->attempt(a, x == &w ? (other ? other->bound : empty) : w.bound)) {
            x->add_client(a);
          }
        }
      }
      bool midway = pick("cfg", 8) == 7;
      if (midway) {
        fault("server_stopped_midway");
        sleep_until(now() + range("cfg", 0, 300) * (pick("cfg", 2) ? us * 100 : ms));
      } else {
        wait_idle();
        for (auto* x : ws) {
          x->judge_clients();
          for (auto& c : x->clients) {
            c->close_all();
          }
        }
        wait_idle();
        if (open_conn_fds() != 0 || pending_backlog() != 0 || bind_world.live) {
          violation(PROPS, "connection leaked", open_fds_text());
        }
        for (auto* x : ws) {
          for (auto& a : x->bound) {
            if (listener_backlog(a.is_local() ? "" : a.addr, a.port, a.is_local() ? a.addr : "") < 0) {
              violation(PROPS, "no longer listening", a.text());
            }
          }
        }
      }
      for (auto* x : ws) {
        x->app->stop();
      }
      for (auto& t : threads) {
        t.join();
      }
      if (other) {
        other->app.reset();
      }
      w.app.reset();
      wait_idle();
    } else {
      fault("server_never_run");
      if (other) {
        other->app.reset();
      }
      w.app.reset();
    }
    if (open_fds() != 0) {
      violation(PROPS, "shutdown leaked descriptors", open_fds_text());
    }
    if (bind_world.live) {
      violation(PROPS, "shutdown leaked request state", std::to_string(bind_world.live) + " handlers alive");
    }
    again.clear();
    for (auto& a : w.bound) {
      if (pick("cfg", 2)) {
        again.push_back(a);
      }
    }
    count("servers", other ? 2 : 1);
    count("connections", w.clients.size());
    for (auto& c : w.clients) {
      c->close_all();
    }
    if (other) {
      for (auto& c : other->clients) {
        c->close_all();
      }
    }
    wait_idle();
    for (auto& c : w.clients) {
      kept.push_back(std::move(c));
    }
    if (other) {
      for (auto& c : other->clients) {
        kept.push_back(std::move(c));
      }
    }
  }
}

Register reg("bind", run_bind);
} // namespace
} // namespace sim
