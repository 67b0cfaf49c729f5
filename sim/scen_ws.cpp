// WebSocket scenarios: handshakes of every kind, sessions, ends of sessions.
#include "app_http.hpp"
#include "app_ws.hpp"
#include "harness.hpp"
#include "http.hpp"
#include "wire.hpp"
#include "ws.hpp"
#include <thread>

namespace sim {
WsWorld ws_world;
}

namespace {
using namespace sim;

constexpr std::uint16_t PORT = 8080;
const std::string SOCK = "/simfs/server.sock";

struct Run {
  HttpConfig cfg;
  int next_rid = 1;
};
Run* g;

std::string utf8_blob(std::uint64_t key, std::size_t n)
{
  auto r = blob(key, n);
  std::string s;
  static const char* u[] = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "z" };
  for (unsigned char c : r) {
    s += u[c & 3];
    if (s.size() >= n) {
      break;
    }
  }
  return s;
}

struct Step { // one HTTP exchange
  std::string wire, rid, what;
  int status = 200;
  std::string body;
  bool any_body = false;
  bool upgrade = false; // 101
  bool ends = false;    // connection ends without a response
  bool closes = false;  // connection ends after the response
  std::string key;
  int sub = 0;
};

struct Act {
  enum K { message, ping, pong, nap, violate, close, fin, rst, silent, wait_all } k = nap;
  WsMsg m;
  std::vector<std::string> frames;
  std::vector<std::string> pings; // inside the frames of a message
  std::string payload;
  ns_t d = 0;
};

struct Client : Wire {
  std::string st;
  std::vector<Step> steps;
  std::size_t step = 0;
  bool bad = false, in_session = false, session_planned = false, lingers = false;
  // session
  std::string rid, route;
  long n = 0, close_code = 0, key = 0, idle_ms = 0, hs_ms = 0;
  int ka = -1;
  bool answer_pings = true, answer_close = true;
  std::vector<Act> script;
  std::size_t pc = 0;
  std::string http_in;
  ws::Decoder dec;
  std::vector<WsMsg> sent_msgs, got_msgs;
  int frag_op = -1;
  std::string frag;
  std::vector<std::string> pings_sent, pongs_got;
  bool close_sent = false, close_got = false, violated = false, dropped = false, silent = false, gave_up = false, script_done = false;
  int close_got_code = 0;
  std::string close_sent_payload;
  ns_t t_upgraded = -1, t_violated = -1, t_close_sent = -1, t_close_got = -1, t_ended = -1;
  std::vector<ns_t> gaps;

  Client()
  {
    on_ready = [this] { send_step(); };
    on_plain = [this](std::string_view d) { input(d); };
    on_end = [this] { t_ended = now(); };
  }
  void fail(const std::string& props, const std::string& cat, const std::string& msg)
  {
    if (!bad) {
      bad = true;
      violation(props, cat, label + ": " + msg);
    }
  }
  void go()
  {
    auto t = g->cfg.transport;
    conn = t == HttpConfig::local || t == HttpConfig::tls_local ? connect_local(this, SOCK, label) : connect(this, PORT, label);
  }
  void send_step()
  {
    if (step < steps.size() && !closed) {
      trace("%s sends %s", label.c_str(), steps[step].what.c_str());
      send(steps[step].wire);
    }
  }
  void input(std::string_view d)
  {
    if (in_session) {
      dec.in += d;
      frames();
      return;
    }
    http_in += d;
    while (!bad && !http_in.empty()) {
      auto r = http::parse_response(http_in, false, fin);
      if (!r.error.empty()) {
        fail("W02", "not a response", "to " + (step < steps.size() ? steps[step].what : "nothing") + ": " + r.error);
        return;
      }
      if (r.head_complete && r.status == 101) {
        r.complete = true;
      }
      if (step >= steps.size()) {
        fail("W02", "extra bytes", show(http_in));
        return;
      }
      if (!r.complete) {
        return;
      }
      auto& s = steps[step];
      http_in.erase(0, r.consumed);
      if (s.ends) {
        fail("W02", "response where none is due", s.what + ": " + std::to_string(r.status));
        return;
      }
      if (r.status != s.status) {
        fail("W02", "wrong handshake status", s.what + ": " + std::to_string(r.status) + " instead of " + std::to_string(s.status) + " body " + show(r.body));
        return;
      }
      if (s.upgrade) {
        auto acc = r.get("sec-websocket-accept").value_or("");
        if (acc != ws::accept_key(s.key) || !http::ieq(r.get("upgrade").value_or(""), "websocket") || !http::ieq(r.get("connection").value_or(""), "upgrade")) {
          fail("W02", "bad upgrade response", s.what + ": accept '" + acc + "'");
          return;
        }
        if (r.get("x-r").value_or("") != s.rid || (s.sub && (r.get("sec-websocket-protocol").value_or("") != "p" + std::to_string(s.sub) || r.all("set-cookie") != std::vector<std::string> { "a=" + s.rid, "b=" + s.rid }))) {
          fail("W02", "header fields of the upgrade response lost", s.what + ": X-R " + r.get("x-r").value_or("-"));
          return;
        }
        ++step;
        in_session = true;
        t_upgraded = now();
        dec.in = http_in;
        http_in.clear();
        frames();
        after(0, [this] { run_script(); });
        return;
      }
      if (!s.any_body && r.body != s.body) {
        fail("W02", "wrong handshake body", s.what + ": " + show(r.body));
        return;
      }
      if (r.status == 426 && r.get("sec-websocket-version").value_or("") != "13") {
        fail("W02", "upgrade required without saying to what", s.what + ": Sec-WebSocket-Version " + r.get("sec-websocket-version").value_or("-"));
        return;
      }
      ++step;
      if (step < steps.size()) {
        after(gaps[step % gaps.size()], [this] { send_step(); });
      } else if (!s.closes && !lingers) {
        after(gaps[0], [this] { give_up(); });
      }
    }
  }
  void give_up()
  {
    gave_up = true;
    close();
  }
  // ------------------------------------------------------------ session
  void ws_send(int op, std::string_view payload, bool last = true)
  {
    send(ws::frame(op, last, payload, pick(st, 3) ? 0x5a17c3e9u + static_cast<std::uint32_t>(payload.size()) : 0));
  }
  std::size_t expected_from_server() const
  {
    if (route == "push" || route == "duplex") {
      return static_cast<std::size_t>(n);
    }
    if (route == "throw") {
      return 0;
    }
    if (route == "echo" && n) {
      return std::min<std::size_t>(sent_msgs.size(), static_cast<std::size_t>(n));
    }
    return sent_msgs.size();
  }
  void run_script()
  {
    while (!closed && !bad && !dropped) {
      if (pc == script.size()) {
        script_done = true;
        return;
      }
      auto& a = script[pc];
      if (a.k == Act::wait_all) {
        if (got_msgs.size() < expected_from_server() && !close_got) {
          return; // resumed by input
        }
        ++pc;
        continue;
      }
      ++pc;
      switch (a.k) {
      case Act::nap: after(a.d, [this] { run_script(); }); return;
      case Act::message: {
        for (auto& f : a.frames) {
          send(f);
        }
        if (!violated && !close_sent) {
          pings_sent.insert(pings_sent.end(), a.pings.begin(), a.pings.end());
          sent_msgs.push_back(a.m);
        }
        break;
      }
      case Act::ping:
        if (!close_sent) {
          pings_sent.push_back(a.payload);
          ws_send(ws::ping, a.payload);
        }
        break;
      case Act::pong: ws_send(ws::pong, a.payload); break;
      case Act::violate:
        violated = true;
        t_violated = now();
        trace("%s violates the protocol (%s)", label.c_str(), a.payload.c_str());
        for (auto& f : a.frames) {
          send(f);
        }
        break;
      case Act::close: send_close(a.payload); break;
      case Act::fin:
        fault("client_fin_in_session");
        dropped = true;
        conn->shutdown_send();
        break;
      case Act::rst:
        fault("client_reset_in_session");
        dropped = true;
        conn->reset();
        break;
      case Act::silent:
        fault("client_goes_silent");
        silent = true;
        answer_pings = answer_close = false;
        return;
      case Act::wait_all: break;
      }
    }
  }
  void send_close(const std::string& payload)
  {
    if (!close_sent) {
      close_sent = true;
      close_sent_payload = payload;
      t_close_sent = now();
      ws_send(ws::close, payload);
    }
  }
  void frames()
  {
    ws::Frame f;
    while (!bad && dec.take(f)) {
      if (close_got) {
        fail("W01 W03", "frame after close", "opcode " + std::to_string(f.op));
        return;
      }
      switch (f.op) {
      case ws::ping:
        if (answer_pings && !close_sent) {
          auto d = f.data;
          ws_send(ws::pong, d);
        }
        break;
      case ws::pong: pongs_got.push_back(f.data); break;
      case ws::close:
        close_got = true;
        t_close_got = now();
        close_got_code = f.data.size() >= 2 ? static_cast<unsigned char>(f.data[0]) << 8 | static_cast<unsigned char>(f.data[1]) : 0;
        trace("%s got close %d", label.c_str(), close_got_code);
        if (!close_sent && answer_close) {
          send_close(f.data.substr(0, 2));
        }
        break;
      case ws::text:
      case ws::binary:
        if (frag_op >= 0) {
          fail("W01", "bad fragmentation", "new message inside a fragmented one");
          return;
        }
        frag_op = f.op;
        frag = f.data;
        if (f.fin) {
          message();
        }
        break;
      case ws::cont:
        if (frag_op < 0) {
          fail("W01", "bad fragmentation", "continuation without a message");
          return;
        }
        frag += f.data;
        if (f.fin) {
          message();
        }
        break;
      }
    }
    if (!dec.error.empty()) {
      fail("W01", "bad frame from the server", dec.error);
    }
    if (pc < script.size() && script[pc].k == Act::wait_all && (got_msgs.size() >= expected_from_server() || close_got)) {
      ++pc;
      after(0, [this] { run_script(); });
    }
  }
  void message()
  {
    WsMsg m { frag_op == ws::text, frag };
    frag_op = -1;
    auto i = got_msgs.size();
    WsMsg want;
    bool have = false;
    if (route == "push" || route == "duplex") {
      if (i < static_cast<std::size_t>(n)) {
        want = push_msg(static_cast<std::uint64_t>(key), i, text_blob, blob);
        have = true;
      }
    } else if (i < sent_msgs.size() && route != "throw") {
      want = sent_msgs[i];
      have = true;
    }
    if (!have) {
      fail("W01", "message nobody sent", route + ": message " + std::to_string(i) + " of " + std::to_string(m.data.size()) + " bytes");
      return;
    }
    if (!(m == want)) {
      fail("W01", "message altered", route + ": message " + std::to_string(i) + ": " + std::to_string(m.data.size()) + (m.text ? " text" : " binary") + " bytes instead of " + std::to_string(want.data.size()) + (want.text ? " text" : " binary"));
      return;
    }
    got_msgs.push_back(std::move(m));
  }
  // ------------------------------------------------------------ judgement
  ns_t idle() const { return idle_ms < 0 ? -1 : idle_ms > 0 ? idle_ms * ms : 300 * sec; }
  ns_t hs() const { return hs_ms > 0 ? hs_ms * ms : 30 * sec; }
  WsObs* obs() const
  {
    for (auto& o : ws_world.obs) {
      if (o->rid == rid) {
        return o.get();
      }
    }
    return nullptr;
  }
  // nothing keeps the server from acting in time
  bool prompt() const { return !profile.cpu; }
  static ns_t slack() { return 400 * ms; }
  bool disturbed() const { return conn->disturbed; }
  // the session may have ended because of its idle timeout
  bool idle_excuse(const WsObs& o) const
  {
    auto t = conn->server_closed ? conn->t_closed : now();
    if (o.t_err >= 0 && o.t_err < t) {
      t = o.t_err;
    }
    if (o.closing || close_sent || close_got) {
      // the closing handshake is bounded by the handshake timeout
      if (t - std::max({ t_close_sent, t_close_got, o.t_read }) >= hs() || t - o.t_read >= std::min(hs(), idle() < 0 ? hs() : ka == 0 ? idle() : idle() / 2)) {
        return true;
      }
    }
    if (idle() < 0) {
      return false;
    }
    return ka == 0 ? t - o.t_read >= idle() : t - std::max(t_last_usable(), ns_t(0)) >= idle() / 2;
  }
  void judge()
  {
    if (bad || !conn || refused || !connected) {
      if (refused) {
        fail("W02", "connection refused", "");
      }
      return;
    }
    if (disturbed()) {
      return;
    }
    if (tls && !hs_done) {
      return;
    }
    if (!conn->server_closed && !conn->paused && conn->congested()) {
      return; // a slow link, the exchange is still going on
    }
    auto T = g->cfg.request_timeout;
    bool http_excuse = T >= 0 && conn->server_closed && conn->t_closed - std::max(conn->t_accepted, ns_t(0)) >= T;
    if (tls && g->cfg.tls_timeout >= 0 && conn->server_closed && conn->t_closed - conn->t_accepted >= g->cfg.tls_timeout) {
      http_excuse = true;
    }
    if (!in_session) {
      // a connection that waits for the next request does not wait for ever
      if (lingers && step == steps.size() && T >= 0 && prompt()) {
        auto end = conn->server_closed ? conn->t_closed : now();
        auto since = std::max({ conn->t_accepted, conn->t_last_recv, conn->t_last_sent });
        if (end - since > T + (tls ? T : 0) + slack()) {
          fail("W02", "connection kept beyond its timeout after a refused upgrade", steps.back().what + ": " + std::to_string((end - since) / ms) + " ms, timeout " + std::to_string(T / ms) + " ms");
        }
        return;
      }
      if (step < steps.size()) {
        auto& s = steps[step];
        if (s.ends) {
          if (!conn->server_closed) {
            fail("W02 W03", "connection kept after its handler failed", s.what);
          }
          return;
        }
        if (!http_excuse && !gave_up) {
          fail("W02", conn->server_closed ? "connection ended without a response" : "no response to a handshake", s.what + " (step " + std::to_string(step) + " of " + std::to_string(steps.size()) + ")");
        }
      }
      return;
    }
    auto* o = obs();
    if (!o) {
      fail("W02", "upgraded without a session", route + ": 101 was sent but the callback never ran");
      return;
    }
    // once a session has ended the connection follows
    if (o->t_end >= 0 && prompt() && (!tls || o->close_seen || o->close_ok || !o->read_error.empty())) {
      auto end = conn->server_closed ? conn->t_closed : now();
      if (end - o->t_end > slack()) {
        fail("W03", "connection kept after its session", route + ": for " + std::to_string((end - o->t_end) / ms) + " ms");
        return;
      }
    }
    // a close that is not answered is given up
    if (o->t_closing >= 0 && o->t_end >= 0 && prompt() && o->t_end - o->t_closing > hs() + slack()) {
      fail("W03", "closing takes longer than the handshake timeout", route + ": " + std::to_string((o->t_end - o->t_closing) / ms) + " ms, timeout " + std::to_string(hs() / ms) + " ms");
      return;
    }
    // what the callback saw
    auto& got = o->got;
    for (std::size_t i = 0; i < got.size(); ++i) {
      if (i >= sent_msgs.size()) {
        fail("W01", "callback saw a message nobody sent", route + ": message " + std::to_string(i) + " " + show(got[i].data) + (violated ? " (after a protocol violation)" : ""));
        return;
      }
      if (!(got[i] == sent_msgs[i])) {
        fail("W01", "callback saw an altered message", route + ": message " + std::to_string(i) + ": " + std::to_string(got[i].data.size()) + " bytes instead of " + std::to_string(sent_msgs[i].data.size()));
        return;
      }
    }
    bool leaves = (route == "echo" && n && got.size() >= static_cast<std::size_t>(n)) || (route == "throw" && got.size() >= static_cast<std::size_t>(n)) || (route == "push" && close_code);
    bool reads = route == "echo" || route == "duplex" || route == "late" || (route == "push" && !close_code);
    bool excuse = idle_excuse(*o);
    // pongs answer pings, in order
    {
      std::size_t k = 0;
      for (auto& p : pongs_got) {
        while (k < pings_sent.size() && pings_sent[k] != p) {
          ++k;
        }
        if (k == pings_sent.size()) {
          fail("W01", "pong without its ping", show(p));
          return;
        }
        ++k;
      }
    }
    bool quiet_end = dropped && script_done; // fin: everything before it arrived in order
    (void)quiet_end;
    if (violated) {
      if (reads && !leaves && !excuse && !conn->server_closed) {
        fail("W03", "session survives a protocol violation", route);
      }
      if (o->close_seen && !close_got) {
        fail("W03", "violation reported as an orderly close", route);
      }
      return;
    }
    if (dropped || silent) {
      if (dropped && !conn->server_closed && reads && !leaves) {
        fail("W03", "session survives its connection", route);
      }
      if (dropped && o->close_seen) {
        fail("W03", "broken connection reported as an orderly close", route + ": the client never sent a close frame");
      }
      if (silent && !leaves && reads && idle() >= 0 && idle() < 100 * sec) {
        if (!conn->server_closed) {
          fail("W03", "idle session never ends", route + ": idle timeout " + std::to_string(idle() / ms) + " ms");
        }
      }
      if (silent && conn->server_closed && !leaves && idle() >= 0 && prompt() && conn->t_closed - std::max({ conn->t_last_recv, o->t_begin, o->t_end }) > idle() + slack()) {
        fail("W03", "session ended long after its idle timeout", route + ": " + std::to_string((conn->t_closed - std::max(conn->t_last_recv, o->t_begin)) / ms) + " ms after the last byte, timeout " + std::to_string(idle() / ms) + " ms");
        return;
      }
      if (silent && conn->server_closed && !leaves && !excuse) {
        fail("W03", "session ended before its idle timeout", route + ": " + std::to_string((conn->t_closed - conn->t_last_recv) / ms) + " ms after the last byte, timeout " + std::to_string(idle() / ms) + " ms; read " + o->read_error);
      }
      return;
    }
    if (leaves) {
      // the callback ended the session
      bool unread = rst || close_sent || sent_msgs.size() > got.size() || !pings_sent.empty() || !pongs_got.empty() || route == "push";
      if (!conn->server_closed && (answer_close || o->closing == false)) {
        fail("W03", "connection kept after its session", route + ": the callback returned and the connection is still open");
        return;
      }
      if (o->closing && close_code && !excuse && !(rst && unread)) {
        if (!close_got) {
          fail("W03", "no close frame", route + ": async_close(" + std::to_string(close_code) + ") never reached the client; " + o->close_error);
        } else if (!(close_got_code == close_code)) {
          fail("W03", "wrong close code", std::to_string(close_got_code) + " instead of " + std::to_string(close_code));
        }
      }
      if ((rst && unread) || excuse || (route == "throw")) {
        return;
      }
      if (route == "echo" && !close_code) {
        // nothing orders the end of the connection after the last message,
        // but the bytes were accepted by the kernel first
        if (!unread && got_msgs.size() < static_cast<std::size_t>(n)) {
          fail("W01", "messages lost at the end of a session", std::to_string(got_msgs.size()) + " of " + std::to_string(n));
        }
        return;
      }
      if (got_msgs.size() != expected_from_server() && close_got) {
        fail("W01", "messages lost before close", route + ": " + std::to_string(got_msgs.size()) + " of " + std::to_string(expected_from_server()));
      }
      return;
    }
    if (!script_done) {
      if (conn->server_closed) {
        if (!excuse) {
          fail("W03 W01", "session ended early", route + ": after " + std::to_string(got.size()) + " of " + std::to_string(sent_msgs.size()) + " messages; read: " + o->read_error + " write: " + o->write_error);
        }
      } else if (pc < script.size() && script[pc].k == Act::wait_all) {
        fail("W01", "messages never delivered", route + ": " + std::to_string(got_msgs.size()) + " of " + std::to_string(expected_from_server()) + " messages came back, callback saw " + std::to_string(got.size()) + " of " + std::to_string(sent_msgs.size()));
      }
      return;
    }
    // orderly: the script ends with a close frame
    if (excuse) {
      return;
    }
    if (!reads) {
      return;
    }
    if (got.size() != sent_msgs.size()) {
      fail("W01", "messages lost", route + ": callback saw " + std::to_string(got.size()) + " of " + std::to_string(sent_msgs.size()) + "; read: " + o->read_error);
      return;
    }
    if (route != "duplex" && got_msgs.size() != expected_from_server()) {
      fail("W01", "messages lost towards the client", route + ": " + std::to_string(got_msgs.size()) + " of " + std::to_string(expected_from_server()) + "; write: " + o->write_error);
      return;
    }
    if (!o->close_seen) {
      fail("W03", "close not reported", route + ": read: " + o->read_error + " write: " + o->write_error + (o->t_end < 0 ? " (callback still running)" : ""));
      return;
    }
    if (!close_got && route != "duplex") {
      fail("W03", "close not answered", route);
      return;
    }
    if (!conn->server_closed) {
      fail("W03", "connection kept after close", route);
      return;
    }
    if (!pings_sent.empty() && route != "duplex" && (pongs_got.empty() || pongs_got.back() != pings_sent.back())) {
      fail("W01", "ping never answered", route + ": " + std::to_string(pongs_got.size()) + " pongs for " + std::to_string(pings_sent.size()) + " pings");
    }
  }
};

std::string handshake(const std::string& target, const std::string& key, const std::string& extra = "", const char* version = "13", const char* minor = "1", const char* connection = "Upgrade", bool host = true)
{
  std::string s = "GET " + target + " HTTP/1." + minor + "\r\n";
  if (host) {
    s += "Host: localhost\r\n";
  }
  s += "Upgrade: websocket\r\n";
  s += std::string("Connection: ") + connection + "\r\n";
  if (!key.empty()) {
    s += "Sec-WebSocket-Key: " + key + "\r\n";
  }
  if (version) {
    s += std::string("Sec-WebSocket-Version: ") + version + "\r\n";
  }
  return s + extra + "\r\n";
}

std::size_t msg_size(const std::string& st)
{
  static const std::size_t e[] = { 0, 1, 124, 125, 126, 127, 65535, 65536, 65537 };
  switch (pick(st, 5)) {
  case 0: return e[pick(st, 9)];
  case 1: return range(st, 2, 50);
  case 2: return range(st, 50, 5000);
  case 3: return range(st, 1, 200);
  default: return pick(st, 6) ? range(st, 1, 2000) : range(st, 5000, 150000);
  }
}

Act make_message(const std::string& st, std::uint64_t key)
{
  Act a;
  a.k = Act::message;
  a.m.text = pick(st, 2);
  auto n = msg_size(st);
  a.m.data = a.m.text ? (pick(st, 3) ? utf8_blob(key, n) : text_blob(key, n)) : blob(key, n);
  auto& d = a.m.data;
  int op = a.m.text ? ws::text : ws::binary;
  auto parts = pick(st, 3) ? 1u : range(st, 2, 5);
  std::size_t p = 0;
  for (std::uint32_t i = 0; i < parts; ++i) {
    bool last = i + 1 == parts;
    auto k = last ? d.size() - p : pick(st, static_cast<std::uint32_t>(d.size() - p + 1));
    a.frames.push_back(ws::frame(i ? ws::cont : op, last, std::string_view(d).substr(p, k), 0x1234567u * (i + 1) + static_cast<std::uint32_t>(key)));
    p += k;
    if (!last && pick(st, 3) == 0) {
      auto pl = text_blob(key + i, range(st, 0, 125));
      a.pings.push_back(pl);
      a.frames.push_back(ws::frame(ws::ping, true, pl, 77));
    }
  }
  return a;
}

Act make_violation(const std::string& st)
{
  Act a;
  a.k = Act::violate;
  auto k = pick(st, 10);
  auto& f = a.frames;
  switch (k) {
  case 0: f.push_back(ws::frame(ws::text, true, "unmasked", 0, false)); a.payload = "unmasked"; break;
  case 1: f.push_back(ws::frame(ws::text, true, "reserved bit", 1, true, 4)); a.payload = "rsv"; break;
  case 2: f.push_back(ws::frame(3 + static_cast<int>(pick(st, 5)), true, "bad opcode", 1)); a.payload = "opcode"; break;
  case 3: f.push_back(ws::frame(ws::ping, false, "fragmented ping", 1)); a.payload = "fragmented ping"; break;
  case 4: f.push_back(ws::frame(ws::ping, true, std::string(126, 'p'), 1)); a.payload = "long ping"; break;
  case 5: f.push_back(ws::frame(ws::cont, true, "continuation of nothing", 1)); a.payload = "orphan continuation"; break;
  case 6:
    f.push_back(ws::frame(ws::text, false, "first", 1));
    f.push_back(ws::frame(ws::text, true, "second", 1));
    a.payload = "interleaved messages";
    break;
  case 7: f.push_back(ws::frame(ws::text, true, "bad utf8 \xff\xfe", 1)); a.payload = "utf8"; break;
  case 8: f.push_back(ws::frame(ws::close, true, "x", 1)); a.payload = "one byte close"; break;
  default: f.push_back(ws::frame(11, true, "control opcode", 1)); a.payload = "control opcode"; break;
  }
  return a;
}

std::string ws_key(std::uint64_t k)
{
  auto d = blob(k, 16);
  unsigned char o[32];
  EVP_EncodeBlock(o, reinterpret_cast<const unsigned char*>(d.data()), 16);
  return reinterpret_cast<char*>(o);
}

Step id_step(const std::string& st)
{
  Step s;
  s.rid = "h" + std::to_string(g->next_rid++);
  auto a = text_blob(hash_bytes(s.rid), range(st, 1, 8));
  s.wire = "GET /id/" + a + "/z?r=" + s.rid + " HTTP/1.1\r\nHost: x\r\n\r\n";
  s.body = "id|a=" + a + "|b=z";
  s.what = "GET /id";
  return s;
}

Step refused_step(const std::string& st, Client& c)
{
  Step s;
  s.rid = "x" + std::to_string(g->next_rid++);
  auto q = "?r=" + s.rid;
  auto key = ws_key(hash_bytes(s.rid));
  s.any_body = true;
  s.status = 400;
  switch (pick(st, 14)) {
  case 0: s.wire = handshake("/ws/echo" + q, key, "", "13", "1", "Upgrade", false); s.what = "upgrade without Host"; break;
  case 1: s.wire = handshake("/ws/echo" + q, ""); s.what = "upgrade without key"; break;
  case 2: s.wire = handshake("/ws/echo" + q, std::string(60, 'k')); s.what = "upgrade with a long key"; break;
  case 3: s.wire = handshake("/ws/echo" + q, key, "", "8"); s.status = 426; s.what = "upgrade with version 8"; break;
  case 4: s.wire = handshake("/ws/echo" + q, key, "", nullptr); s.what = "upgrade without version"; break;
  case 5: {
    auto a = text_blob(1, range(st, 1, 9));
    s.wire = handshake("/id/" + a + "/b" + q, key);
    s.status = 200;
    s.any_body = false;
    s.body = "id|a=" + a + "|b=b";
    s.what = "upgrade to an ordinary route";
    break;
  }
  case 6:
    s.wire = handshake("/nope" + q, key);
    s.status = 404;
    s.any_body = false;
    s.body = "request path is not found";
    s.what = "upgrade to an unknown path";
    break;
  case 7: {
    auto n = range(st, 0, 3000);
    s.wire = handshake("/gen" + q + "&k=5&m=" + (pick(st, 2) ? "chunked" : "sized") + "&n=" + std::to_string(n), key);
    s.status = 200;
    s.any_body = false;
    s.body = blob(5, n);
    s.what = "upgrade to a generated body";
    break;
  }
  case 8:
    s.wire = handshake("/throw" + q, key);
    s.ends = true;
    s.what = "upgrade to a throwing handler";
    break;
  case 9:
    s.wire = handshake("/ws/echo" + q, key, "", "13", "0", "Upgrade, keep-alive");
    s.any_body = false;
    s.body = "\"Connection: Upgrade\" is expected.";
    s.what = "upgrade by HTTP/1.0";
    break;
  case 10:
    s.wire = "GET /ws/echo" + q + " HTTP/1.1\r\nHost: x\r\n\r\n";
    s.any_body = false;
    s.body = "\"Connection: Upgrade\" is expected.";
    s.what = "plain GET of a websocket route";
    break;
  case 11:
  case 12:
    s.wire = handshake("/ws/reject" + q, key);
    s.status = 403;
    s.any_body = false;
    s.body = "no websocket for you";
    s.what = "upgrade to a refusing handler";
    break;
  default:
    s.wire = handshake("/ws/echo" + q, key);
    s.wire.replace(0, 3, "POST");
    s.status = 404;
    s.any_body = false;
    s.body = "request path is not found";
    s.what = "upgrade by POST";
    break;
  }
  (void)c;
  return s;
}

void plan_session(const std::string& st, Client& c)
{
  static const char* routes[] = { "echo", "echo", "echo", "push", "duplex", "late", "throw" };
  c.rid = "w" + std::to_string(g->next_rid++);
  c.route = routes[pick(st, 7)];
  c.session_planned = true;
  auto q = "?r=" + c.rid;
  if (pick(st, 2)) {
    static const long idles[] = { 500, 1000, 3000, 20000, -1 };
    c.idle_ms = idles[pick(st, 5)];
    q += "&idle=" + std::to_string(c.idle_ms);
  }
  if (pick(st, 2)) {
    c.ka = static_cast<int>(pick(st, 2));
    q += "&ka=" + std::to_string(c.ka);
  }
  if (pick(st, 3) == 0) {
    c.hs_ms = pick(st, 2) ? 2000 : 5000;
    q += "&hs=" + std::to_string(c.hs_ms);
  }
  static const long codes[] = { 1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011 };
  auto m = range(st, 0, 6);
  if (c.route == "echo") {
    if (pick(st, 3) == 0) {
      c.n = range(st, 1, 4);
      if (pick(st, 2)) {
        c.close_code = codes[pick(st, 9)];
      }
    }
    if (pick(st, 3) == 0) {
      q += "&ping=1";
    }
  } else if (c.route == "push" || c.route == "duplex") {
    c.n = range(st, 0, 8);
    c.key = pick(st, 10000);
    q += "&k=" + std::to_string(c.key);
    if (c.route == "push" && pick(st, 2)) {
      c.close_code = codes[pick(st, 9)];
    }
    if (pick(st, 2)) {
      q += "&d=" + std::to_string(range(st, 1, 40));
    }
    if (pick(st, 3) == 0) {
      q += "&ping=1";
    }
  } else if (c.route == "throw") {
    c.n = range(st, 0, 2);
  } else if (c.route == "late") {
    q += "&d=" + std::to_string(range(st, 1, 3000));
  }
  q += "&n=" + std::to_string(c.n) + "&close=" + std::to_string(c.close_code);
  Step s;
  s.rid = c.rid;
  s.key = ws_key(hash_bytes(c.rid));
  if (pick(st, 3) == 2) {
    s.sub = static_cast<int>(range(st, 1, 9));
    q += "&sub=" + std::to_string(s.sub);
  }
  s.status = 101;
  s.upgrade = true;
  s.what = "upgrade to /ws/" + c.route;
  s.wire = handshake("/ws/" + c.route + q, s.key, pick(st, 3) ? "" : "Origin: http://x\r\nSec-WebSocket-Extensions: permessage-deflate\r\n", "13", "1", pick(st, 3) ? "Upgrade" : "keep-alive, Upgrade");
  c.steps.push_back(s);
  // script
  auto nap = [&] {
    Act a;
    a.d = pick(st, 3) ? range(st, 0, 60) * ms : range(st, 0, 5000) * us;
    c.script.push_back(a);
  };
  for (std::uint32_t i = 0; i < m; ++i) {
    if (pick(st, 2)) {
      nap();
    }
    auto k = pick(st, 8);
    if (k == 0) {
      Act a;
      a.k = Act::ping;
      a.payload = text_blob(i, range(st, 0, 125));
      c.script.push_back(a);
    } else if (k == 1) {
      Act a;
      a.k = Act::pong;
      a.payload = "unsolicited";
      c.script.push_back(a);
    } else {
      c.script.push_back(make_message(st, hash_bytes(c.rid) + i));
    }
  }
  auto end = pick(st, 10);
  Act a;
  if (end == 0) {
    c.script.push_back(make_violation(st));
    return;
  }
  if (end == 1) {
    a.k = Act::fin;
  } else if (end == 2) {
    a.k = Act::rst;
  } else if (end == 3) {
    a.k = Act::silent;
  } else if (end == 4) {
    // stays, answering pings, then leaves in order
    Act w;
    w.d = c.idle_ms > 0 ? 3 * c.idle_ms * ms : 2 * sec;
    c.script.push_back(w);
    a.k = Act::close;
    a.payload = ws::close_payload(1000, "");
  } else {
    if (pick(st, 3)) {
      Act w;
      w.k = Act::wait_all;
      c.script.push_back(w);
      if (pick(st, 2)) {
        nap();
      }
    }
    a.k = Act::close;
    static const int cc[] = { 0, 1000, 1001, 3000, 4999 };
    auto code = cc[pick(st, 5)];
    a.payload = ws::close_payload(code, code && pick(st, 2) ? "bye" : "");
  }
  c.script.push_back(a);
  if (c.close_code && pick(st, 5) == 0) {
    c.answer_close = false;
  }
}

void run_ws(bool secure)
{
  Run run;
  g = &run;
  auto& cfg = run.cfg;
  if (secure) {
    deterministic_openssl();
    cfg.transport = pick("cfg", 4) == 3 ? HttpConfig::tls_local : HttpConfig::tls;
  } else {
    cfg.transport = pick("cfg", 5) == 4 ? HttpConfig::local : HttpConfig::tcp;
  }
  if (pick("cfg", 2)) {
    cfg.defaults = false;
    static const ns_t t[] = { 5 * sec, 1 * sec, 30 * sec, -1 };
    cfg.request_timeout = t[pick("cfg", 4)];
  }
  cfg.threads = pick("cfg", 4) == 3 ? static_cast<int>(range("cfg", 2, 3)) : 1;
  draw_profile({
      { &Profile::split, { 100, 500, 1000 } },
      { &Profile::delay, { 100, 500, 1000 } },
      { &Profile::stall, { 20, 100 } },
      { &Profile::short_write, { 200, 900 } },
      { &Profile::short_read, { 200, 1500 } },
      { &Profile::eagain, { 300, 2000 } },
      { &Profile::eintr, { 300, 2000 } },
      { &Profile::small_sndbuf, { 300, 900 } },
      { &Profile::reorder, { 100, 700 } },
      { &Profile::send_err, { 30 } },
      { &Profile::recv_err, { 30 } },
      { &Profile::thread_switch, { 100, 600 } },
  });
  auto app = http_factory(cfg);
  if (!app->bind(PORT, SOCK)) {
    violation("W02", "bind failed", "bind() failed");
    return;
  }
  std::vector<std::unique_ptr<Client>> clients;
  auto n = range("cfg", 1, 4);
  for (std::uint32_t i = 0; i < n; ++i) {
    auto c = std::make_unique<Client>();
    c->label = "c" + std::to_string(i);
    c->st = "client/" + c->label;
    c->tls = secure;
    auto& st = c->st;
    auto m = pick(st, 3);
    for (std::uint32_t k = 0; k < m; ++k) {
      c->steps.push_back(pick(st, 2) ? id_step(st) : refused_step(st, *c));
      if (c->steps.back().ends) {
        break;
      }
    }
    for (int k = 0; k < 3; ++k) {
      c->gaps.push_back(pick(st, 2) ? range(st, 0, 100) * ms : 0);
    }
    if ((c->steps.empty() || !c->steps.back().ends) && pick(st, 6)) {
      plan_session(st, *c);
    } else if (c->steps.empty()) {
      c->steps.push_back(refused_step(st, *c));
    }
    c->lingers = !c->session_planned && pick(st, 2);
    auto* cp = c.get();
    after(pick(st, 2) ? range(st, 0, 3000) * us : range(st, 0, 1000) * ms, [cp] { cp->go(); });
    if (pick(st, 10) == 9) {
      auto at_ = range(st, 1, 200) * ms;
      auto d = range(st, 1, 400) * ms;
      after(at_, [cp] { if (cp->conn) cp->conn->pause(true); });
      after(at_ + d, [cp] { if (cp->conn) cp->conn->pause(false); });
    }
    clients.push_back(std::move(c));
  }
  auto probe = std::make_unique<Client>();
  probe->label = "probe";
  probe->st = "client/probe";
  probe->tls = secure;
  probe->gaps = { 0 };
  {
    Step s;
    probe->rid = s.rid = "probe";
    probe->route = "echo";
    s.key = ws_key(99);
    s.status = 101;
    s.upgrade = true;
    s.what = "probe";
    s.wire = handshake("/ws/echo?r=probe", s.key);
    probe->steps.push_back(s);
    Act a;
    a.k = Act::message;
    a.m = { true, "hello" };
    a.frames.push_back(ws::frame(ws::text, true, "hello", 3));
    probe->script.push_back(a);
    Act w;
    w.k = Act::wait_all;
    probe->script.push_back(w);
    Act e;
    e.k = Act::close;
    e.payload = ws::close_payload(1000, "");
    probe->script.push_back(e);
  }
  std::thread server([&] { app->run(); });
  bool early = pick("cfg", 8) == 7;
  if (early) {
    sleep_until(now() + range("cfg", 0, 1500) * (pick("cfg", 2) ? us * 100 : ms));
    fault("server_stopped_midway");
    app->stop();
    server.join();
    app.reset();
    wait_idle();
  } else {
    // sessions with answered keep-alive pings never come to rest by themselves
    sleep_until(now() + 90 * sec);
    for (auto& c : clients) {
      c->judge();
    }
    for (auto& c : clients) {
      if (c->conn) {
        c->conn->pause(false);
      }
      c->close();
    }
    wait_idle();
    profile = Profile {};
    if (open_conn_fds() != 0 || pending_backlog() != 0) {
      violation("W03 H08", "connection leaked", std::to_string(open_conn_fds()) + " sockets still open after every client is gone: " + open_fds_text());
    }
    if (ws_world.live || http_world.live_handlers || http_world.live_streams) {
      violation("W03 H08", "session leaked", std::to_string(ws_world.live) + " callbacks alive after every client is gone");
    }
    probe->go();
    sleep_until(now() + 10 * sec);
    probe->judge();
    if (!probe->close_got || probe->got_msgs.size() != 1) {
      violation("W02 W03 H07", "server no longer serves", "a fresh session after all faults stopped did not complete");
    }
    app->stop();
    server.join();
    app.reset();
  }
  if (ws_world.live) {
    violation("W03 H08", "shutdown leaked a session", std::to_string(ws_world.live) + " callbacks alive after server and context are gone");
  }
  if (open_fds() != 0) {
    violation("W03 H08", "shutdown leaked descriptors", open_fds_text());
  }
  // every callback belongs to a session a client asked for
  std::map<std::string, int> per;
  for (auto& o : ws_world.obs) {
    bool known = o->rid == "probe";
    for (auto& c : clients) {
      known |= c->session_planned && c->rid == o->rid;
    }
    if (!known) {
      violation("W02", "session nobody asked for", "callback of /ws/" + o->route + " ran for r=" + o->rid);
    }
    if (++per[o->rid] > 1) {
      violation("W02", "callback ran twice", o->rid);
    }
  }
  for (auto& c : clients) {
    count("sessions", c->in_session);
    count("messages_to_server", c->sent_msgs.size());
    count("messages_to_client", c->got_msgs.size());
    count("handshake_steps", c->step);
    count("orderly_closes", c->close_sent && c->close_got);
  }
  count("exceptions_reported", static_cast<std::uint64_t>(http_world.exceptions));
}

Register r1("ws", [] { run_ws(false); });
Register r2("wss", [] { run_ws(true); });
} // namespace
