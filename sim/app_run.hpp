// Runs one application server with sequential clients; shared by the files,
// codec and app scenarios.
#pragma once
#include "app_app.hpp"
#include "seq_client.hpp"
#include <thread>

namespace sim {

constexpr std::uint16_t APP_PORT = 8080;

struct AppRun {
  std::string props; // properties any of this scenario's steps decides
  std::function<Step(const std::string& st, int client, int k)> make;
  std::function<void(const std::string& st)> between;  // once per client, before its steps
  std::function<void()> finish;                         // after the server is gone
  std::uint32_t max_clients = 4, max_steps = 10;
  bool stopped = false;
  std::vector<std::unique_ptr<SeqClient>> clients;

  static void profile_net_and_files(bool files)
  {
    draw_profile({
        { &Profile::split, { 100, 500, 1000 } },
        { &Profile::delay, { 100, 500, 1000 } },
        { &Profile::stall, { 20, 100 } },
        { &Profile::short_write, { 200, 900 } },
        { &Profile::short_read, { 200, 1500 } },
        { &Profile::eagain, { 300, 2000 } },
        { &Profile::eintr, { 300, 2000 } },
        { &Profile::small_sndbuf, { 300, 900 } },
        { &Profile::cpu, { 20, 200 } },
        { &Profile::reorder, { 100, 700 } },
        { &Profile::send_err, { 30 } },
        { &Profile::recv_err, { 30 } },
        { &Profile::thread_switch, { 100, 600 } },
    });
    if (files) {
      static const std::uint32_t e[] = { 0, 0, 30, 200 };
      profile.file_open_err = e[pick("cfg", 4)];
      profile.file_read_err = e[pick("cfg", 4)];
      profile.file_write_err = e[pick("cfg", 4)];
      static const std::uint32_t s[] = { 0, 200, 900 };
      profile.file_short = s[pick("cfg", 3)];
      profile.file_delay = s[pick("cfg", 3)];
    }
  }

  void go()
  {
    app_config.threads = pick("cfg", 4) == 3 ? static_cast<int>(range("cfg", 2, 3)) : 1;
    auto app = app_factory();
    if (!app->bind(APP_PORT, "")) {
      violation(props, "bind failed", "bind() failed");
      return;
    }
    auto n = range("cfg", 1, max_clients);
    for (std::uint32_t i = 0; i < n; ++i) {
      auto c = std::make_unique<SeqClient>();
      c->label = "c" + std::to_string(i);
      c->st = "client/" + c->label;
      c->port = APP_PORT;
      auto m = range(c->st, 1, max_steps);
      for (std::uint32_t k = 0; k < m; ++k) {
        auto s = make(c->st, static_cast<int>(i), static_cast<int>(k));
        switch (pick(c->st, 4)) {
        case 0: break;
        case 1: s.gap = range(c->st, 1, 1000) * us; break;
        default: s.gap = range(c->st, 1, 60) * ms; break;
        }
        c->steps.push_back(std::move(s));
      }
      auto* cp = c.get();
      after(range(c->st, 0, 50) * ms, [cp] { cp->go(); });
      clients.push_back(std::move(c));
    }
    SeqClient probe;
    probe.label = "probe";
    probe.port = APP_PORT;
    probe.steps.emplace_back();
    probe.steps[0].rq.target = "/nowhere/at/all";
    probe.steps[0].rq.headers = { { "Host", "x" }, { "Connection", "close" } };
    probe.steps[0].what = "probe";
    std::thread server([&] { app->run(); });
    if (pick("cfg", 16) == 15) {
      stopped = true;
      sleep_until(now() + range("cfg", 0, 3000) * (pick("cfg", 2) ? us * 100 : ms));
      fault("server_stopped_midway");
      app->stop();
      server.join();
      app.reset();
      wait_idle();
    } else {
      wait_idle();
      for (auto& c : clients) {
        c->settle();
        judge(*c);
      }
      for (auto& c : clients) {
        c->close_all();
      }
      wait_idle();
      profile = Profile {}; // faults stop
      if (open_conn_fds() != 0 || pending_backlog() != 0) {
        violation(props + " H08", "connection leaked", std::to_string(open_conn_fds()) + " sockets still open after every client is gone: " + open_fds_text());
      }
      for (auto& [path, ino] : fs()) {
        if (ino->opens) {
          violation(props, "file left open", path + " is still open although every connection is gone");
        }
      }
      if (app_world.live) {
        violation(props + " H08", "request state leaked", std::to_string(app_world.live) + " handlers alive after every client is gone");
      }
      probe.go();
      wait_idle();
      if (probe.steps[0].state != Step::done || probe.steps[0].resp.status != 404) {
        violation(props + " H07", "server no longer serves", "a fresh request after all faults stopped got no proper response");
      }
      app->stop();
      server.join();
      app.reset();
    }
    if (app_world.live) {
      violation(props + " H08", "shutdown leaked request state", std::to_string(app_world.live) + " handlers alive after server and context are gone");
    }
    if (open_fds() != 0) {
      violation(props + " H08", "shutdown leaked descriptors", open_fds_text());
    }
    finish();
    std::size_t done = 0, total = 0;
    for (auto& c : clients) {
      total += c->steps.size();
      for (auto& s : c->steps) {
        done += s.state == Step::done;
      }
    }
    count("requests", total);
    count("responses", done);
    count("connections", clients.size());
    count("handler_runs", app_world.obs.size());
    count("exceptions_reported", static_cast<std::uint64_t>(http_world.exceptions));
  }

  // every observation of a request
  static std::vector<const AppObs*> seen(const std::string& rid)
  {
    std::vector<const AppObs*> v;
    for (auto& o : app_world.obs) {
      if (o->rid == rid) {
        v.push_back(o.get());
      }
    }
    return v;
  }

private:
  // an answer that left the body unread lets the server end the connection under the requests that follow it
  static bool after_may(const SeqClient& c, std::size_t i)
  {
    while (i-- > 0) {
      auto& p = c.steps[i];
      if (p.drop == Step::may) {
        return true;
      }
      if (p.state != Step::failed) {
        return false;
      }
    }
    return false;
  }

  void judge(SeqClient& c)
  {
    for (std::size_t i = 0; i < c.steps.size(); ++i) {
      auto& s = c.steps[i];
      auto id = c.label + " step " + std::to_string(i) + " (" + s.what + ")";
      if (s.state == Step::done) {
        count("answered");
        if (s.drop == Step::must) {
          violation(s.props.empty() ? props : s.props, "answered where the connection had to end", id + ": " + std::to_string(s.resp.status) + " " + show(s.resp.body));
        } else if (s.judge) {
          s.judge(s, id);
        }
      } else if (s.state == Step::failed) {
        if (s.on_failed) {
          s.on_failed(s, id);
        }
        if (s.whole() && !s.disturbed && s.drop == Step::never && !(s.unread && s.rst) && !(s.excused && s.excused()) && !after_may(c, i)) {
          violation(s.props.empty() ? props : s.props, "no answer", id + ": " + (c.wires.empty() || c.wires.back()->conn->server_closed ? "connection ended" : "connection still open") + " after " + (s.resp.head_complete ? "part of a response (" + std::to_string(s.resp.status) + ", " + std::to_string(s.resp.body.size()) + " bytes of body)" : "no response"));
        }
      } else if (s.state == Step::unsent && (i == 0 || c.steps[i - 1].state != Step::unsent) && (i == 0 || c.steps[i - 1].state == Step::done)) {
        // could not even be sent although the previous one was answered
        auto* w = c.wire();
        if (w && w->conn && !w->conn->disturbed && !w->rst) {
          violation(props + " H07", "connection not usable", id + ": never sent");
        }
      }
    }
    if (c.chaos) {
      violation(props, "not HTTP", c.label + ": " + c.chaos_text);
    }
  }
};

} // namespace sim
