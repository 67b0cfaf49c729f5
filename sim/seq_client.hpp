// A client that sends requests one after the other on keep-alive connections
// and opens a new connection whenever the previous one is gone.
#pragma once
#include "http.hpp"
#include "wire.hpp"
#include <functional>
#include <memory>

namespace sim {

struct Step {
  http::Request rq;
  std::string rid, what;
  enum Cut { none, fin, abandon, reset } cut = none; // break off after cut_at bytes
  std::size_t cut_at = 0;
  ns_t gap = 0;
  // outcome
  enum State { unsent, sent, broken_off, done, failed } state = unsent;
  http::Response resp; // complete when state == done, else what there was
  int conn = -1;
  ns_t t_sent = 0, t_done = 0;
  bool disturbed = false; // a fault on the connection explains a missing answer
  bool rst = false;
  bool unread = false;    // the server may not read all of the request: its close can take the answer along
  enum Drop { never, may, must } drop = never; // the connection ends instead of an answer
  std::string props;      // what a wrong outcome refutes, if not everything the scenario decides
  std::function<void(Step&)> prepare;                         // just before it is sent
  std::function<void(const Step&, const std::string&)> judge; // when answered
  std::function<void(const Step&, const std::string&)> on_failed;
  std::function<void(const Step&)> on_done;                   // the moment the answer is complete
  std::function<bool()> excused;                              // something else explains a broken answer
  bool whole() const { return state != unsent && cut == none; }
};

struct SeqClient {
  std::string label, st;
  std::uint16_t port = 8080;
  bool tls = false;
  std::function<Conn*(Peer*, const std::string&)> dial; // if not to `port`
  std::vector<Step> steps;
  std::vector<std::unique_ptr<Wire>> wires;
  std::size_t cur = 0;
  std::string in;
  ns_t start = 0;
  int chaos = 0; // responses that are no HTTP
  std::string chaos_text;

  Wire* wire() { return wires.empty() ? nullptr : wires.back().get(); }
  void go()
  {
    if (cur < steps.size()) {
      open();
    }
  }
  void close_all()
  {
    for (auto& w : wires) {
      if (w->conn) {
        w->conn->pause(false);
        w->close();
      }
    }
  }
  // at quiescence
  void settle()
  {
    if (cur < steps.size() && steps[cur].state == Step::sent) {
      finish(Step::failed);
    }
  }

private:
  void open()
  {
    in.clear();
    wires.push_back(std::make_unique<Wire>());
    auto* w = wires.back().get();
    w->label = label + "." + std::to_string(wires.size());
    w->on_ready = [this, w] {
      if (w == wire()) {
        send_step();
      }
    };
    w->on_plain = [this, w](std::string_view d) {
      if (w == wire()) {
        in += d;
        digest(false);
      }
    };
    w->on_end = [this, w] {
      if (w == wire()) {
        ended();
      }
    };
    w->tls = tls;
    w->conn = dial ? dial(w, w->label) : connect(w, port, w->label);
  }
  void send_step()
  {
    auto& s = steps[cur];
    if (s.prepare) {
      s.prepare(s);
    }
    auto data = s.rq.wire();
    if (s.cut != Step::none && s.cut_at >= data.size()) {
      s.cut_at = data.size() - 1;
    }
    s.state = Step::sent;
    s.conn = wire()->conn->id;
    s.t_sent = now();
    if (s.cut == Step::none) {
      wire()->send(data);
      return;
    }
    fault(s.cut == Step::fin ? "request_cut_fin" : s.cut == Step::reset ? "request_cut_reset" : "request_cut_close");
    wire()->send(std::string_view(data).substr(0, s.cut_at));
    auto* w = wire();
    if (s.cut == Step::fin) {
      w->conn->shutdown_send();
      return; // the server may still answer
    }
    after(steps[cur].gap, [this, w] {
      if (w != wire() || w->closed) {
        return;
      }
      w->closed = true;
      if (steps[cur].cut == Step::reset) {
        w->conn->reset();
      } else {
        w->conn->close();
      }
      finish(Step::broken_off);
      next(true);
    });
  }
  void digest(bool eof)
  {
    while (cur < steps.size() && steps[cur].state == Step::sent && !in.empty()) {
      auto& s = steps[cur];
      auto r = http::parse_response(in, s.rq.method == "HEAD", eof);
      s.resp = r;
      if (!r.error.empty()) {
        ++chaos;
        chaos_text = s.what + ": " + r.error;
        in.clear();
        return;
      }
      if (!r.complete) {
        return;
      }
      in.erase(0, r.consumed);
      if (r.status == 100) {
        continue;
      }
      finish(Step::done);
      next(http::ieq(r.get("connection").value_or(""), "close") || eof || s.cut != Step::none);
      return;
    }
    if (!in.empty() && (cur >= steps.size() || steps[cur].state == Step::unsent)) {
      ++chaos;
      chaos_text = "bytes nobody asked for: " + show(in);
      in.clear();
    }
  }
  void ended()
  {
    auto* w = wire();
    if (w->fin) {
      digest(true);
    }
    if (w != wire() || cur >= steps.size()) {
      return;
    }
    if (steps[cur].state == Step::sent) {
      finish(Step::failed);
      next(true);
    }
  }
  void finish(Step::State st_)
  {
    auto& s = steps[cur];
    s.state = st_;
    s.disturbed = wire()->conn->disturbed;
    s.rst = wire()->rst;
    s.t_done = now();
    if (st_ == Step::done && s.on_done) {
      s.on_done(s);
    }
    trace("%s: step %zu (%s) %s status %d", label.c_str(), cur, s.what.c_str(), st_ == Step::done ? "answered" : st_ == Step::failed ? "FAILED" : "broken off", s.resp.status);
  }
  void next(bool reopen)
  {
    ++cur;
    auto* w = wire();
    auto gap = cur < steps.size() ? steps[cur].gap : 0;
    after(gap, [this, reopen, w] {
      if (w != wire()) {
        return;
      }
      if (cur >= steps.size()) {
        w->close();
        return;
      }
      if (reopen || w->closed || w->fin || w->rst) {
        w->close();
        open();
      } else {
        send_step();
      }
    });
  }
};

} // namespace sim
