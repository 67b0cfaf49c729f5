// Middlewares, states, extractors and routing.
#include "app_run.hpp"

namespace sim {
namespace {

using KV = std::vector<std::pair<std::string, std::string>>;
struct Want {
  std::string props, what;
  int handler = 1; // 0: must not run, 1: runs exactly once, 2: may run once
  std::string value;
  bool check_value = false, check_kv = false, check_body = false;
  KV kv;
  std::string body, err;
  std::vector<std::vector<std::string>> trails; // one of these
  bool check_trail = false;
};
struct CaseRun {
  std::map<std::string, Want> want;
  int counters = 0;
};
CaseRun* g;

std::string pct(const std::string& st, std::string_view s, bool query)
{
  std::string r;
  for (unsigned char c : s) {
    bool plain = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~';
    if (query && c == ' ' && pick(st, 2)) {
      r += '+';
    } else if (plain && pick(st, 16) != 15) {
      r += static_cast<char>(c);
    } else {
      char b[8];
      snprintf(b, sizeof b, pick(st, 2) ? "%%%02X" : "%%%02x", c);
      r += b;
    }
  }
  return r;
}
std::string hexed(std::string_view s) { return std::to_string(s.size()) + ":" + std::to_string(hash_bytes(s)); }

// ------------------------------------------------------------- middlewares
struct Out {
  int status = 0; // 0: exception
  bool std_exception = true;
  std::string body, rid;
  std::vector<std::string> xres;
};
struct Model {
  std::map<std::string, std::string> todo;
  std::vector<std::string> chain;
  bool eh_catches_all = false;
  std::string rid, body;
  std::vector<std::string> trail, mods;
  std::optional<std::string> added;
  bool handler = false, handler_body = false, replaced = false, int_thrown = false;

  Out run(std::size_t i)
  {
    if (i == chain.size()) {
      trail.push_back("h");
      handler = true;
      auto& w = todo["h"];
      if (w == "throw" || w == "throwint") {
        int_thrown |= w == "throwint";
        return { 0, w == "throw", "", "", {} };
      }
      handler_body = true;
      return { 200, true, "mw|" + body, rid, {} };
    }
    auto n = chain[i];
    if (n == "EH") {
      auto r = run(i + 1);
      if (r.status == 0 && (r.std_exception || eh_catches_all)) {
        return { 500, true, "", "", {} };
      }
      return r;
    }
    trail.push_back(n + ">");
    auto& w = todo[n];
    if (w == "block") {
      return { 403, true, "blocked by " + n, rid, {} };
    }
    if (w == "throw" || w == "throwint") {
      int_thrown |= w == "throwint";
      return { 0, w == "throw", "", "", {} };
    }
    if (w == "header") {
      mods.push_back(n);
    }
    if (w == "query" && !added) {
      added = n;
    }
    if (w == "body" || w == "bytes") {
      body = "replaced by " + n;
      replaced = true;
    }
    if (w == "json") {
      body = "{\"by\":\"" + n + "\"}";
      replaced = true;
    }
    auto r = run(i + 1);
    if (r.status == 0) {
      return r;
    }
    if (w == "throwafter") {
      return { 0, true, "", "", {} };
    }
    trail.push_back(n + "<" + std::to_string(r.status));
    if (w == "respond") {
      r.xres.push_back(n);
    }
    if (w == "replace") {
      return { 202, true, "instead by " + n, rid, {} };
    }
    return r;
  }
};

Step make_mw(const std::string& st, const std::string& rid)
{
  struct R {
    const char* path;
    const char* pattern;
    std::vector<std::string> chain;
    bool p;
  };
  static const R routes[] = {
    { "/m1/x/", "/m1/x/{p}", { "A", "B", "C", "D" }, true },
    { "/m1/y", "/m1/y", { "A", "B" }, false },
    { "/m2/n/x/", "/m2/n/x/{p}", { "A", "EH", "B", "C", "D" }, true },
    { "/m2/n/k/x", "/m2/n/k/x", { "A", "EH", "B", "C", "E" }, false },
    { "/m2/x", "/m2/x", { "A", "EH", "B" }, false },
    { "/m3/x", "/m3/x", { "A", "EH" }, false },
    { "/m4/x", "/m4/x", { "EH", "A", "EH", "B" }, false },
  };
  auto& r = routes[pick(st, 7)];
  Step s;
  s.rid = rid;
  s.props = "M01";
  static const char* const methods[] = { "GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS" };
  s.rq.method = methods[pick(st, 6)];
  static const char* const values[] = { "v", "some thing", "\xc3\xa9t\xc3\xa9", "a+b&c=d", "x" };
  std::string p = values[pick(st, 5)];
  std::map<std::string, std::string> todo;
  auto n = pick(st, 4);
  for (std::uint32_t i = 0; i < n; ++i) {
    auto k = pick(st, static_cast<std::uint32_t>(r.chain.size()) + 1);
    if (k == r.chain.size()) {
      static const char* const hs[] = { "throw", "delay", "delay", "throwint" };
      todo["h"] = hs[pick(st, 4)];
    } else if (r.chain[k] != "EH") {
      static const char* const as[] = { "header", "query", "body", "bytes", "json", "delay", "respond", "delayafter", "replace", "block", "throw", "throwafter", "throwint", "header", "respond", "body" };
      todo[r.chain[k]] = as[pick(st, 16)];
    }
  }
  std::string d;
  for (auto& [k, v] : todo) {
    d += (d.empty() ? "" : ",") + k + ":" + v;
  }
  std::string plain = pick(st, 2) ? values[pick(st, 5)] : "";
  s.rq.target = r.path + (r.p ? pct(st, p, false) : "") + "?r=" + rid + (d.empty() ? "" : "&d=" + d) + (plain.empty() ? "" : "&plain=" + pct(st, plain, true));
  s.rq.headers = { { "Host", "x" }, { "X-Keep", "kept " + rid } };
  if (pick(st, 2) && s.rq.method != "GET") {
    s.rq.body = text_blob(hash_bytes(rid), pick(st, 3) ? 1 + pick(st, 500) : 1 + pick(st, 100000));
    s.rq.framing = pick(st, 2) ? http::Request::length : http::Request::chunked;
    s.rq.chunk_sizes = { 1 + pick(st, 3000) };
  }
  s.what = s.rq.method + " " + r.pattern + " d=" + d + " body " + std::to_string(s.rq.body.size());

  Model m, m2;
  m.todo = todo;
  m.chain = r.chain;
  m.rid = rid;
  m.body = s.rq.body;
  m2 = m;
  m2.eh_catches_all = true;
  auto o = m.run(0);
  auto o2 = m2.run(0);
  bool either = m.int_thrown && (o.status != o2.status);
  Want w;
  w.props = "M01";
  w.what = s.what;
  w.handler = m.handler;
  w.check_trail = true;
  w.trails = { m.trail, m2.trail };
  if (m.handler_body) {
    w.check_kv = w.check_body = true;
    for (auto& x : m.mods) {
      w.kv.emplace_back("mod", x);
    }
    w.kv.emplace_back("keep", "kept " + rid);
    if (m.added) {
      w.kv.emplace_back("added", *m.added);
    }
    if (!plain.empty()) {
      w.kv.emplace_back("plain", plain);
    }
    if (r.p) {
      w.kv.emplace_back("p", p);
    }
    w.kv.emplace_back("path", r.path + (r.p ? p : std::string()));
    w.kv.emplace_back("method", s.rq.method);
    w.kv.emplace_back("version", "1.1");
    if (std::string_view(r.path).substr(0, 3) == "/m2") {
      w.kv.emplace_back("sa", "7");
    }
    w.body = m.body;
  }
  g->want[rid] = w;
  s.drop = either ? Step::may : o.status == 0 ? Step::must : Step::never;
  s.unread = (!m.handler_body || m.replaced) && !s.rq.body.empty();
  s.judge = [o, o2](const Step& x, const std::string& id) {
    auto& p = x.resp;
    auto fits = [&](const Out& o) { return o.status && p.status == o.status && p.body == o.body && p.get("x-r").value_or("") == o.rid && p.all("x-res") == o.xres; };
    if (!fits(o) && !fits(o2)) {
      violation("M01", "wrong response", id + ": " + std::to_string(p.status) + " " + show(p.body) + " instead of " + std::to_string(o.status) + " " + show(o.body));
    }
  };
  return s;
}

// ----------------------------------------------------------------- logging
struct LogWant {
  std::string path, method, agent, text;
  int status = 0;    // of the access record, 0: none
  bool error = false; // an error record is due
  long wait = 0;
};
std::map<std::string, LogWant> g_log;

Step make_lg(const std::string& st, const std::string& rid)
{
  Step s;
  s.rid = rid;
  s.props = "L03";
  static const char* const routes[] = { "/lg/a/", "/lg/e/", "/lo/", "/lg/j/" };
  auto r = pick(st, 4);
  static const char* const methods[] = { "GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS" };
  s.rq.method = methods[r == 3 ? 1 + pick(st, 2) : pick(st, 6)];
  static const char* const values[] = { "v", "some thing", "\xc3\xa9t\xc3\xa9", "{}", "{0:d}%s", "x" };
  static const char* const agents[] = { "", "curl/8.5.0", "Mozilla/5.0 (X11; {Linux})", "{}{1}", "%n" };
  LogWant w;
  std::string x = values[pick(st, 6)];
  w.path = routes[r] + x + "_" + rid;
  w.method = s.rq.method;
  w.agent = agents[pick(st, 5)];
  w.status = 200;
  Want want;
  want.props = "L03";
  bool answered = true;
  s.rq.headers = { { "Host", "x" } };
  if (!w.agent.empty()) {
    s.rq.headers.push_back({ pick(st, 2) ? "User-Agent" : "user-agent", w.agent });
  }
  s.rq.target = routes[r] + pct(st, x, false) + "_" + rid + "?r=" + rid;
  if (r == 3) {
    bool good = pick(st, 2);
    s.rq.body = good ? "[1,2,3]" : pick(st, 2) ? "[1,2" : "{}";
    s.rq.framing = http::Request::length;
    s.rq.headers.push_back({ "Content-Type", "application/json" });
    if (!good) {
      want.handler = 0;
      w.status = 400;
    }
  } else {
    static const int statuses[] = { 200, 200, 201, 404, 418, 500, 599 };
    w.wait = pick(st, 2) ? static_cast<long>(range(st, 1, 40)) : 0;
    if (w.wait) {
      s.rq.target += "&d=" + std::to_string(w.wait);
    }
    if (pick(st, 3) == 0) {
      w.text = "it broke {} %s " + rid;
      s.rq.target += "&t=" + pct(st, w.text, true);
      if (r == 0) {
        w.status = 0;
        answered = false;
      } else {
        w.error = true;
        w.status = r == 2 ? 0 : 500;
      }
    } else {
      w.status = statuses[pick(st, 7)];
      s.rq.target += "&s=" + std::to_string(w.status);
    }
  }
  s.what = s.rq.method + " " + s.rq.target;
  want.what = s.what;
  s.drop = answered ? Step::never : Step::must;
  g->want[rid] = want;
  auto status = w.status ? w.status : 500;
  s.judge = [status](const Step& x, const std::string& id) {
    if (x.resp.status != status) {
      violation("L03", "wrong response", id + ": " + std::to_string(x.resp.status) + " instead of " + std::to_string(status));
    }
  };
  count("loggable_requests");
  g_log[rid] = w;
  return s;
}

// the records written, against the requests that were answered
void judge_log(const AppRun& r)
{
  std::map<std::string, int> access, errors;
  std::map<std::string, const Step*> by;
  std::map<std::string, unsigned> ip;
  for (auto& c : r.clients) {
    for (auto& s : c->steps) {
      by[s.rid] = &s;
    }
  }
  for (auto& rec : app_world.log) {
    static const std::string A = "[fitoria.middleware.logger] ", E = "[fitoria.middleware.exception_handler] exception: ";
    bool is_access = rec.msg.compare(0, A.size(), A) == 0;
    if (!is_access && rec.msg.compare(0, E.size(), E) != 0) {
      continue; // others may be added
    }
    if (!is_access && rec.level != 4) {
      violation("L03", "record of another level", rec.msg + ": level " + std::to_string(rec.level));
    }
    if (is_access && rec.level != 2) {
      violation("L03", "record of another level", rec.msg + ": level " + std::to_string(rec.level));
    }
    if (app_config.logging == 2 && is_access) {
      violation("L03", "filtered record written", rec.msg);
    }
    const LogWant* w = nullptr;
    std::string rid;
    if (!is_access) {
      for (auto& [k, v] : g_log) {
        if (!v.text.empty() && rec.msg == E + v.text) {
          w = &v;
          rid = k;
        }
      }
      if (!w) {
        continue; // of the middleware property's requests
      }
      if (!w->error || ++errors[rid] > 1) {
        violation("L03", "record out of place", rec.msg + " for " + by[rid]->what);
      }
      continue;
    }
    for (auto& [k, v] : g_log) {
      if (rec.msg.find(" " + v.method + " " + v.path + " ") != std::string::npos) {
        w = &v;
        rid = k;
      }
    }
    if (!w) {
      violation("L03", "record of no request", rec.msg);
      continue;
    }
    auto* s = by[rid];
    if (!w->status || ++access[rid] > 1) {
      violation("L03", "record out of place", rec.msg + " for " + s->what);
      continue;
    }
    auto n = 0x0a000001u + static_cast<unsigned>(s->conn);
    auto ips = std::to_string(n >> 24) + "." + std::to_string((n >> 16) & 255) + "." + std::to_string((n >> 8) & 255) + "." + std::to_string(n & 255);
    auto head = A + ips + " " + w->method + " " + w->path + " " + std::to_string(w->status) + " " + w->agent + " ";
    int h = -1, m = -1, sec_ = -1, us_ = -1, used = 0;
    bool ok = rec.msg.compare(0, head.size(), head) == 0 && sscanf(rec.msg.c_str() + head.size(), "%2d:%2d:%2d.%6ds%n", &h, &m, &sec_, &us_, &used) == 4 && static_cast<std::size_t>(used) == rec.msg.size() - head.size();
    if (!ok) {
      violation("L03", "record differs from the request", rec.msg + " instead of " + head + "HH:MM:SS.uuuuuus");
      continue;
    }
    auto took = ((h * 60LL + m) * 60 + sec_) * sec + us_ * us;
    if (took < w->wait * ms || (s->state == Step::done && took > s->t_done - s->t_sent)) {
      violation("L03", "record with a wrong duration", rec.msg + ": the handler waits " + std::to_string(w->wait) + " ms, the client waited " + std::to_string((s->t_done - s->t_sent) / us) + " us");
    }
    count("access_records");
  }
  if (!app_config.logging) {
    if (!app_world.log.empty()) {
      violation("L03", "record without a logger", app_world.log[0].msg);
    }
    return;
  }
  for (auto& [rid, w] : g_log) {
    auto* s = by[rid];
    if (s->state != Step::done && !(w.status == 0 && !w.error)) {
      continue;
    }
    if (app_config.logging == 1 && w.status && !access[rid]) {
      violation("L03", "request not recorded", s->what);
    }
    if (w.error && !errors[rid]) {
      violation("L03", "exception not recorded", s->what);
    }
  }
}

// ------------------------------------------------------------------ states
Step make_state(const std::string& st, const std::string& rid)
{
  static const char* const t[][3] = {
    { "/st/r0", "1,1,-", "state" },
    { "/st/r1", "2,1,-", "state" },
    { "/st/of", "1", "state_of" },
    { "/st/of1", "9", "state_of" },
    { "/st/in/r2", "4,3,3", "state" },
    { "/st/in/r3", "1,3,3", "state" },
    { "/st/bare/r4", "1,1,-", "state" },
    { "/st/bare/r5", "1,1,5", "state" },
    { "/st/r6", "1,1,11", "state" },
    { "/st0", "-,-,-", "state" },
    { "/st0of", nullptr, "" },
    { "/sx/a", "2,-,-", "state" },
    { "/sx/b", "1,-,-", "state" },
    { "/p1/q", "6,-,-", "state" },
    { "/p2/q", "5,-,-", "state" },
    { "/p3/q", "5,8,-", "state" },
  };
  auto& r = t[pick(st, std::size(t))];
  Step s;
  s.rid = rid;
  s.props = "M02";
  s.what = std::string("state ") + r[0];
  s.rq.target = std::string(r[0]) + "?r=" + rid;
  s.rq.headers = { { "Host", "x" } };
  Want w;
  w.props = "M02";
  w.what = s.what;
  w.handler = r[1] != nullptr;
  w.check_value = true;
  w.value = r[1] ? r[1] : "";
  g->want[rid] = w;
  std::string body = r[1] ? std::string("st|") + r[1] : "";
  int status = r[1] ? 200 : 500;
  s.judge = [body, status](const Step& x, const std::string& id) {
    if (x.resp.status != status || (status == 200 && x.resp.body != body)) {
      violation("M02", "wrong state", id + ": " + std::to_string(x.resp.status) + " " + show(x.resp.body) + " instead of " + body);
    }
  };
  return s;
}

// -------------------------------------------------------------- extractors
std::string word(const std::string& st, bool segment)
{
  static const char* const w[] = { "a", "two words", "\xe4\xbd\xa0\xe5\xa5\xbd", "1+1=2&3", "100%", "x;y,z", "\"q\"", "tab\there", "\xf0\x9f\x98\x80", "back\\slash", "colon:at@", "~._-", "?#", "caf\xc3\xa9" };
  std::string r = w[pick(st, 14)];
  if (pick(st, 3) == 2) {
    r += w[pick(st, 14)];
  }
  if (!segment && pick(st, 8) == 7) {
    r += "/{x}/\r\n";
  }
  return r;
}
std::string number(const std::string& st, int bits, bool is_signed, bool& ok)
{
  ok = true;
  unsigned long long umax = bits == 64 ? ~0ull : (1ull << bits) - 1;
  switch (pick(st, 8)) {
  case 0: return "0";
  case 1: return is_signed ? std::to_string(umax >> 1) : std::to_string(umax);
  case 2:
    if (is_signed) {
      return "-" + std::to_string((umax >> 1) + 1);
    }
    return "1";
  case 3: {
    ok = false;
    if (bits == 64) {
      return is_signed ? "9223372036854775808" : "18446744073709551616";
    }
    return std::to_string(is_signed ? (umax >> 1) + 1 : umax + 1);
  }
  case 4: {
    ok = false;
    static const char* const bad[] = { "", "abc", "1x", " 1", "1 ", "0x10", "1.5", "--1", "\xd9\xa1" };
    return bad[pick(st, 9)];
  }
  case 5:
    if (!is_signed) {
      ok = false;
    }
    return "-1";
  default: return std::to_string(pick(st, bits == 8 ? 256 : bits == 16 ? 32768 : 100000));
  }
}
std::string json_string(const std::string& st, const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      r += std::string("\\") + static_cast<char>(c);
    } else if (c < 0x20 || (c < 0x80 && pick(st, 16) == 15)) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r + "\"";
}

std::string truth(const std::string& st, bool& ok, bool& value)
{
  static const char* const bs[] = { "1", "t", "true", "y", "yes", "TRUE", "Yes", "T", "Y", "tRuE", "0", "f", "false", "n", "no", "False", "NO", "F", "N", "fAlSe", "2", "on", "tr", "truex", "yess", "-", "off", "none" };
  auto i = pick(st, 28);
  ok = i < 20;
  value = i < 10;
  return bs[i];
}
std::string real(double d)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
// exactly representable, so that there is one right answer
std::string real_text(const std::string& st, bool& ok, double& value)
{
  static const char* const bad[] = { "x", "1.5x", "1,5", " 1", "1..2", "--1", "1.5 ", "." };
  ok = pick(st, 4) != 3;
  if (!ok) {
    return bad[pick(st, 8)];
  }
  value = (static_cast<double>(pick(st, 2000001)) - 1000000) / (1 << pick(st, 5));
  char b[60];
  snprintf(b, sizeof b, pick(st, 2) ? "%.17g" : "%.5f", value);
  return b;
}

std::string peer_address(int conn)
{
  auto n = 0x0a000001u + static_cast<unsigned>(conn);
  return std::to_string(n >> 24) + "." + std::to_string((n >> 16) & 255) + "." + std::to_string((n >> 8) & 255) + "." + std::to_string(n & 255);
}

Step make_x(const std::string& st, const std::string& rid)
{
  Step s;
  s.rid = rid;
  s.props = "X01";
  s.rq.headers = { { "Host", "x" } };
  Want w;
  w.props = "X01";
  bool ok = true, maybe = false, nowhere = false;
  switch (pick(st, 10)) {
  case 9: {
    auto b = word(st, true), a = word(st, true), c = word(st, true);
    s.rq.target = "/x/pi/" + pct(st, b, false) + "/mid/" + pct(st, a, false) + "/" + pct(st, c, false) + "?r=" + rid;
    s.what = "path information " + b + " " + a + " " + c;
    auto A = hexed(a), B = hexed(b), C = hexed(c);
    w.value = "/x/pi/{b}/mid/{a}/{c}|" + hexed("/x/pi/" + b + "/mid/" + a + "/" + c) + "|3n|b|a|c|" + B + "|" + A + "|" + C + "|-|-|b=" + B + "|a=" + A + "|c=" + C + "|" + C + "|" + A + "|" + B + "|-|-";
    break;
  }
  case 6: {
    bool k1, k2, k3, b;
    double c = 0;
    auto a = number(st, 16, true, k1);
    auto bt = truth(st, k2, b);
    auto ct = real_text(st, k3, c);
    auto d = word(st, true);
    ok = k1 && k2 && k3;
    nowhere = a.empty();
    s.rq.target = "/x/pm/" + pct(st, a, false) + "/" + pct(st, bt, false) + "/" + pct(st, ct, false) + "/" + pct(st, d, false) + "?r=" + rid;
    s.what = "path tuple of four " + a + " " + bt + " " + ct + " " + d;
    w.value = a + "|" + (b ? "true" : "false") + "|" + real(c) + "|" + hexed(d);
    break;
  }
  case 7: {
    bool k1, k2, k3, b;
    double c = 0;
    auto a = number(st, 16, false, k1);
    auto bt = truth(st, k2, b);
    auto ct = real_text(st, k3, c);
    ok = k1 && k2 && k3;
    nowhere = a.empty();
    s.rq.target = "/x/pn/" + pct(st, ct, false) + "/" + pct(st, bt, false) + "/" + pct(st, a, false) + "?r=" + rid;
    s.what = "path struct of three " + ct + " " + bt + " " + a;
    w.value = a + "|" + (b ? "true" : "false") + "|" + real(c);
    break;
  }
  case 8: {
    auto n = pick(st, 3) ? pick(st, 300) : pick(st, 200000);
    s.rq.method = "POST";
    s.rq.target = "/x/str?r=" + rid;
    s.rq.body = blob(hash_bytes(rid), n);
    auto m = pick(st, 4);
    w.value = hexed(s.rq.body) + "|" + (m ? "m0 " + rid : "?") + "|" + (m ? "in" : "out") + "|out";
    for (std::uint32_t i = 0; i < m; ++i) {
      static const char* const names[] = { "X-M", "x-m", "X-m" };
      auto v = "m" + std::to_string(i) + " " + rid;
      s.rq.headers.emplace_back(names[pick(st, 3)], v);
      s.rq.headers.emplace_back("X-Between", "-");
      w.value += "," + v;
    }
    s.what = "string body " + std::to_string(n) + ", " + std::to_string(m) + " repeated headers";
    break;
  }
  case 0: {
    auto a = word(st, true);
    bool k;
    auto b = number(st, 64, false, k);
    ok = k;
    nowhere = b.empty();
    s.rq.target = "/x/pt/" + pct(st, a, false) + "/" + pct(st, b, false) + "?r=" + rid;
    s.what = "path tuple " + a + " " + b;
    w.value = hexed(a) + "|" + b;
    break;
  }
  case 1: {
    auto a = word(st, true);
    bool k;
    auto b = number(st, 32, true, k);
    ok = k;
    nowhere = b.empty();
    s.rq.target = "/x/ps/" + pct(st, b, false) + "/" + pct(st, a, false) + "?r=" + rid;
    s.what = "path struct " + a + " " + b;
    w.value = hexed(a) + "|" + b;
    break;
  }
  case 2: {
    bool k1, k2;
    auto n = number(st, 32, true, k1);
    auto u = number(st, 8, false, k2);
    static const char* const bs[] = { "1", "t", "true", "y", "yes", "TRUE", "Yes", "0", "f", "false", "n", "no", "False", "NO", "2", "on", "" };
    auto bi = pick(st, 17);
    ok = k1 && k2 && bi < 14;
    std::vector<std::string> f = { "r=" + rid, "n=" + pct(st, n, true), std::string("b=") + bs[bi], "u=" + pct(st, u, true) };
    auto twist = pick(st, 10);
    if (twist == 8) {
      f.erase(f.begin() + 1 + pick(st, 3));
      ok = false;
    } else if (twist == 9) {
      f.push_back(pick(st, 2) ? "more=1" : "more=");
      ok = false;
    }
    std::string t = "/x/q?";
    auto rot = pick(st, static_cast<std::uint32_t>(f.size()));
    for (std::size_t i = 0; i < f.size(); ++i) {
      t += (i ? "&" : "") + f[(i + rot) % f.size()];
    }
    s.rq.target = t;
    s.what = "query " + t;
    w.value = n + "|" + (bi < 7 ? "true" : "false") + "|" + u;
    break;
  }
  case 3: {
    auto user = word(st, false), pass = word(st, false);
    bool k;
    auto n = number(st, 64, true, k);
    ok = k;
    std::vector<std::string> f = { "user=" + pct(st, user, true), "pass=" + pct(st, pass, true), "n=" + pct(st, n, true) };
    auto rot = pick(st, 3);
    auto twist = pick(st, 14);
    if (twist == 11) {
      f.erase(f.begin() + pick(st, 3));
      rot = 0;
      ok = false;
    } else if (twist == 12) {
      f.push_back(pick(st, 2) ? "more=1" : "more=");
      ok = false;
    } else if (twist == 13) {
      f[0] += "%zz";
      ok = false;
    }
    for (std::size_t i = 0; i < f.size(); ++i) {
      s.rq.body += (i ? "&" : "") + f[(i + rot) % f.size()];
    }
    static const char* const ct[] = { "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "text/plain", "application/json", "nonsense", "" };
    auto c = pick(st, 8);
    c = c < 6 ? c : 0;
    if (c > 1) {
      ok = false;
    }
    s.rq.method = "POST";
    s.rq.target = "/x/form?r=" + rid;
    if (c != 5) {
      s.rq.headers.emplace_back("Content-Type", ct[c]);
    }
    s.what = std::string("form ") + ct[c] + " " + show(s.rq.body);
    w.value = hexed(user) + "|" + hexed(pass) + "|" + n;
    break;
  }
  case 4: {
    auto str = word(st, false);
    bool k;
    auto n = number(st, 64, true, k);
    auto len = pick(st, 5);
    std::string v, vs;
    for (std::uint32_t i = 0; i < len; ++i) {
      auto x = static_cast<int>(pick(st, 2000)) - 1000;
      v += (i ? "," : "") + std::to_string(x);
      vs += "," + std::to_string(x);
    }
    bool b = pick(st, 2);
    static const char* const sp[] = { "", " ", "\n\t" };
    auto ws = [&] { return std::string(sp[pick(st, 3)]); };
    std::vector<std::string> f = { "\"s\":" + ws() + json_string(st, str), "\"n\":" + n, "\"v\":" + ws() + "[" + v + "]", std::string("\"b\":") + (b ? "true" : "false") };
    // not JSON numbers
    ok = k;
    auto rot = pick(st, 4);
    auto twist = pick(st, 16);
    if (twist == 10) {
      f.erase(f.begin() + pick(st, 4));
      rot = 0;
      ok = false;
    } else if (twist == 11) {
      f.push_back("\"more\":{}");
      maybe = true;
    } else if (twist == 12) {
      f[3] = "\"b\":1";
      ok = false;
    } else if (twist == 13) {
      f[2] = "\"v\":[1,\"2\"]";
      ok = false;
    }
    std::string body = ws() + "{";
    for (std::size_t i = 0; i < f.size(); ++i) {
      body += (i ? "," : "") + ws() + f[(i + rot) % f.size()];
    }
    body += "}" + ws();
    if (twist == 14) {
      body.resize(body.size() - 1 - pick(st, static_cast<std::uint32_t>(body.size() - 1)));
      ok = body.find_last_not_of(" \n\t") != std::string::npos && body[body.find_last_not_of(" \n\t")] == '}' && ok;
    } else if (twist == 15) {
      body = pick(st, 2) ? std::string(50 + pick(st, 100000), '[') : body + "x";
      ok = false;
    }
    if (k && !ok) {
    }
    static const char* const ct[] = { "application/json", "application/json; charset=utf-8", "text/plain", "" };
    auto c = pick(st, 8);
    c = c < 4 ? c : 0;
    if (c > 1) {
      ok = false;
    }
    s.rq.method = "POST";
    s.rq.target = "/x/json?r=" + rid;
    s.rq.body = body;
    if (c != 3) {
      s.rq.headers.emplace_back("Content-Type", ct[c]);
    }
    s.what = std::string("json ") + ct[c] + " " + show(body);
    w.value = hexed(str) + "|" + n + "|" + (b ? "true" : "false") + vs;
    // "1 " is a number followed by space, " 1" likewise, "1.5" and "-0" are numbers of another kind
    if (n == " 1" || n == "1 " || n == "1.5" || n == "0x10") {
      maybe = n != "1.5" && n != "0x10";
      ok = n == " 1" || n == "1 " ? ok || maybe : false;
      w.value = hexed(str) + "|1|" + (b ? "true" : "false") + vs;
      if (maybe && (c > 1 || (twist >= 10 && twist != 11))) {
        ok = false;
      }
    }
    break;
  }
  default: {
    auto p = word(st, true);
    auto n = pick(st, 3) ? pick(st, 300) : pick(st, 200000);
    s.rq.method = "POST";
    s.rq.body = blob(hash_bytes(rid), n);
    auto k = word(st, true);
    std::string clean;
    for (auto c : k) {
      if (c >= 0x20) {
        clean += c;
      }
    }
    s.rq.headers.emplace_back("X-K", clean + "!");
    s.rq.target = "/x/all/" + pct(st, p, false) + "?r=" + rid;
    s.what = "all " + p + " " + std::to_string(n);
    w.value = p + "|/x/all/{p}|" + clean + "!|1.1|" + hexed(s.rq.body);
  }
  }
  if (s.rq.method == "POST") {
    s.rq.framing = pick(st, 2) ? http::Request::length : http::Request::chunked;
    s.rq.chunk_sizes = { 1 + pick(st, 300) };
    if (pick(st, 12) == 11) {
      s.cut = static_cast<Step::Cut>(1 + pick(st, 3));
      s.cut_at = 1 + pick(st, static_cast<std::uint32_t>(s.rq.wire().size()));
      s.what += ", connection cut";
    }
  }
  bool whole = s.cut == Step::none;
  s.unread = !ok;
  w.what = s.what;
  w.handler = !whole || !ok ? 0 : maybe ? 2 : 1;
  w.check_value = true;
  auto value = w.value;
  g->want[rid] = w;
  s.judge = [ok, maybe, nowhere, whole, value](const Step& x, const std::string& id) {
    auto& p = x.resp;
    if (p.status == 200) {
      if (!ok || !whole) {
        violation("X01", "invalid input accepted", id + ": " + show(p.body));
      } else if (p.body != value || p.get("x-r") != x.rid) {
        violation("X01", "wrong value extracted", id + ": " + show(p.body) + " instead of " + show(value));
      } else if (auto remote = p.get("x-remote"); remote && (*remote != peer_address(x.conn) || p.get("x-local") != "127.0.0.1")) {
        violation("X01", "wrong connection", id + ": " + *remote + " and " + p.get("x-local").value_or("-") + " instead of " + peer_address(x.conn));
      }
    } else if (p.status < 400 || p.status > 499 || (p.status == 404 && !nowhere)) {
      violation("X01", "unexpected status", id + ": " + std::to_string(p.status));
    } else if (ok && whole && !maybe) {
      violation("X01", "valid input refused", id + ": " + std::to_string(p.status) + " " + show(p.body));
    }
  };
  return s;
}

// --------------------------------------------------------------- responses
// A JSON reader of its own, enough for what the server may send.
struct Json {
  std::string_view in;
  std::size_t at = 0;
  bool bad = false;
  void ws()
  {
    while (at < in.size() && (in[at] == ' ' || in[at] == '\n' || in[at] == '\t' || in[at] == '\r')) {
      ++at;
    }
  }
  bool eat(char c)
  {
    ws();
    if (at < in.size() && in[at] == c) {
      ++at;
      return true;
    }
    return false;
  }
  static void utf8(std::string& r, unsigned c)
  {
    if (c < 0x80) {
      r += static_cast<char>(c);
    } else if (c < 0x800) {
      r += static_cast<char>(0xc0 | (c >> 6));
      r += static_cast<char>(0x80 | (c & 63));
    } else if (c < 0x10000) {
      r += static_cast<char>(0xe0 | (c >> 12));
      r += static_cast<char>(0x80 | ((c >> 6) & 63));
      r += static_cast<char>(0x80 | (c & 63));
    } else {
      r += static_cast<char>(0xf0 | (c >> 18));
      r += static_cast<char>(0x80 | ((c >> 12) & 63));
      r += static_cast<char>(0x80 | ((c >> 6) & 63));
      r += static_cast<char>(0x80 | (c & 63));
    }
  }
  unsigned hex4()
  {
    unsigned v = 0;
    for (int i = 0; i < 4; ++i) {
      char c = at < in.size() ? in[at++] : 'x';
      if (!isxdigit(static_cast<unsigned char>(c))) {
        bad = true;
        return 0;
      }
      v = v * 16 + static_cast<unsigned>(c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
    }
    return v;
  }
  std::string str()
  {
    std::string r;
    if (!eat('"')) {
      bad = true;
      return r;
    }
    while (at < in.size() && in[at] != '"') {
      auto c = in[at++];
      if (static_cast<unsigned char>(c) < 0x20) {
        bad = true;
      }
      if (c != '\\') {
        r += c;
        continue;
      }
      c = at < in.size() ? in[at++] : '?';
      switch (c) {
      case 'n': r += '\n'; break;
      case 't': r += '\t'; break;
      case 'r': r += '\r'; break;
      case 'b': r += '\b'; break;
      case 'f': r += '\f'; break;
      case '"':
      case '\\':
      case '/': r += c; break;
      case 'u': {
        auto u = hex4();
        if (u >= 0xd800 && u < 0xdc00 && at + 1 < in.size() && in[at] == '\\' && in[at + 1] == 'u') {
          at += 2;
          u = 0x10000 + ((u - 0xd800) << 10) + (hex4() - 0xdc00);
        }
        utf8(r, u);
        break;
      }
      default: bad = true;
      }
    }
    if (!eat('"')) {
      bad = true;
    }
    return r;
  }
  std::string value()
  {
    ws();
    if (at >= in.size()) {
      bad = true;
      return "";
    }
    if (in[at] == '"') {
      return hexed(str());
    }
    if (eat('[')) {
      std::string r = "[";
      if (eat(']')) {
        return "[]";
      }
      do {
        r += (r.size() > 1 ? "," : "") + value();
      } while (!bad && eat(','));
      bad |= !eat(']');
      return r + "]";
    }
    if (eat('{')) {
      std::map<std::string, std::string> m;
      if (!eat('}')) {
        do {
          ws();
          auto k = str();
          bad |= !eat(':');
          m[k] = value();
        } while (!bad && eat(','));
        bad |= !eat('}');
      }
      std::string r = "{";
      for (auto& [k, v] : m) {
        r += k + "=" + v + ";";
      }
      return r + "}";
    }
    auto b = at;
    while (at < in.size() && (isalnum(static_cast<unsigned char>(in[at])) || in[at] == '-' || in[at] == '+' || in[at] == '.')) {
      ++at;
    }
    bad |= at == b;
    return std::string(in.substr(b, at - b));
  }
};

struct Answer {
  int status = 200;
  std::map<std::string, std::vector<std::string>> headers; // by canonical name
  std::string body;
  enum Framing { any, length, chunked } framing = any;
};
std::string canonical(std::string_view n)
{
  std::string r;
  for (auto c : n) {
    r += http::lower(c);
  }
  return r;
}
// an operation in the language of apps/app_y.cpp, done to the model as well
std::string y_ops(const std::string& st, Answer& a, std::uint32_t n, const std::string& rid)
{
  std::string r;
  for (std::uint32_t i = 0; i < n; ++i) {
    auto k = pick(st, 9);
    if (k == 8) {
      auto c = y_statuses[pick(st, static_cast<std::uint32_t>(n_y_statuses))];
      if (c == 204 || c == 304 || a.status == 204 || a.status == 304) {
        continue; // these cannot have every body
      }
      a.status = c;
      r += (r.empty() ? "" : ";") + std::string("ca") + std::to_string(c);
      continue;
    }
    int name = static_cast<int>(pick(st, n_y_names));
    bool by_field = (name == 0 || name == 3 || name == 9) && pick(st, 2);
    bool set = k < 4;
    auto v = "v" + std::to_string(i) + " " + rid + (pick(st, 4) ? "" : ", a=\"b c\"");
    auto& h = a.headers[canonical(y_names[name])];
    if (set) {
      h.clear();
    }
    h.push_back(v);
    r += (r.empty() ? "" : ";") + std::string(1, by_field ? set ? 'S' : 'I' : set ? 's' : 'i') + static_cast<char>('a' + name) + v;
  }
  return r;
}
void y_body(Answer& a, const std::string& kind, const std::string& body)
{
  if (kind == "none") {
    return; // as it was
  }
  a.body = kind == "empty" ? "" : body;
  a.framing = kind == "chunked" || kind == "chunks" ? Answer::chunked : Answer::length;
}
Step make_y(const std::string& st, const std::string& rid)
{
  static const char* const kinds[] = { "none", "empty", "text", "bytes", "vector", "any", "sized", "chunked", "chunks" };
  Step s;
  s.rid = rid;
  s.props = "X02";
  s.rq.headers = { { "Host", "x" } };
  static const char* const methods[] = { "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD" };
  s.rq.method = methods[pick(st, 6)];
  auto n = pick(st, 3) ? pick(st, 3000) : pick(st, 6) ? 0 : pick(st, 200000);
  s.rq.body = blob(hash_bytes(rid), n);
  Answer a;
  a.framing = Answer::length;
  a.body = s.rq.body;
  std::string want = std::to_string(n), more;
  bool inner = false, json = false;
  auto route = pick(st, 9);
  switch (route) {
  case 0: {
    s.rq.target = "/y/s";
    a.headers["content-type"] = { "text/plain" };
    inner = true;
    break;
  }
  case 1:
    s.rq.target = pick(st, 2) ? "/y/v" : "/y/y";
    a.headers["content-type"] = { "application/octet-stream" };
    break;
  case 2:
  case 3: {
    auto k = pick(st, 3);
    s.rq.target = route == 2 ? "/y/var" : "/y/exp";
    inner = route == 3;
    if (k == 0) {
      more = "&k=text";
      a.headers["content-type"] = { "text/plain" };
    } else if (k == 1 && route == 2) {
      more = "&k=bytes";
      a.headers["content-type"] = { "application/octet-stream" };
    } else {
      a.status = route == 2 ? 202 : 409;
      a.headers["x-r"] = { rid };
    }
    break;
  }
  case 4: {
    s.rq.target = "/y/j";
    s.rq.method = "POST";
    auto str = word(st, false);
    bool k, b = pick(st, 2);
    std::string num;
    do {
      num = number(st, 64, true, k);
    } while (!k);
    auto len = pick(st, 5);
    std::string v;
    for (std::uint32_t i = 0; i < len; ++i) {
      v += (i ? "," : "") + std::to_string(static_cast<int>(pick(st, 2000)) - 1000);
    }
    auto o = pick(st, 2) ? "null" : json_string(st, word(st, false));
    s.rq.body = "{\"s\":" + json_string(st, str) + ",\"n\":" + num + ",\"v\":[" + v + "],\"b\":" + (b ? "true" : "false") + ",\"o\":" + o + "}";
    s.rq.headers.emplace_back("Content-Type", "application/json");
    want = std::to_string(str.size());
    a.headers["content-type"] = { "application/json" };
    a.headers["x-r"] = { rid };
    a.body = s.rq.body;
    json = true;
    break;
  }
  default: {
    s.rq.target = "/y/b";
    inner = true;
    auto h = pick(st, static_cast<std::uint32_t>(n_y_statuses));
    a.status = y_statuses[h];
    bool bare = a.status == 204 || a.status == 304;
    auto ops = y_ops(st, a, pick(st, 7), rid);
    a.headers["x-r"] = { rid };
    std::string k = bare ? "none" : kinds[pick(st, 9)];
    a.body.clear();
    a.framing = Answer::any;
    y_body(a, k, s.rq.body);
    more = "&h=" + std::to_string(h) + "&k=" + k + (ops.empty() ? "" : "&o=" + pct(st, ops, true));
  }
  }
  // what the middlewares around it do to the response, inner one first
  for (int m = inner ? 2 : 1; m >= 1; --m) {
    if (pick(st, 3)) {
      continue;
    }
    auto ops = y_ops(st, a, pick(st, 4), rid);
    if (!ops.empty()) {
      more += "&m" + std::to_string(m) + "=" + pct(st, ops, true);
    }
    if (pick(st, 3) == 0 && a.status != 204 && a.status != 304) {
      std::string k = kinds[pick(st, 9)];
      more += "&k" + std::to_string(m) + "=" + k;
      y_body(a, k, "changed by " + std::to_string(m));
      json &= k == "none";
    }
  }
  s.rq.target += "?r=" + rid + more;
  s.rq.framing = pick(st, 2) ? http::Request::length : http::Request::chunked;
  s.rq.chunk_sizes = { 1 + pick(st, 3000) };
  s.what = s.rq.method + " " + s.rq.target;
  Want w;
  w.props = "X02";
  w.what = s.what;
  w.handler = 1;
  w.check_value = true;
  w.value = want;
  g->want[rid] = w;
  count("described_responses");
  s.judge = [a, json](const Step& x, const std::string& id) {
    auto& p = x.resp;
    if (p.status != a.status) {
      violation("X02", "another status", id + ": " + std::to_string(p.status) + " instead of " + std::to_string(a.status));
      return;
    }
    for (auto n : { "content-type", "set-cookie", "x-one", "x-two", "location", "x-r" }) {
      auto it = a.headers.find(n);
      auto got = p.all(n);
      if (it == a.headers.end() ? !got.empty() : got != it->second) {
        std::string l, m;
        for (auto& v : got) {
          l += " [" + v + "]";
        }
        if (it != a.headers.end()) {
          for (auto& v : it->second) {
            m += " [" + v + "]";
          }
        }
        violation("X02", "other headers", id + ": " + n + l + " instead of" + (m.empty() ? " none" : m));
      }
    }
    bool bare = x.rq.method == "HEAD" || a.status == 204 || a.status == 304;
    if (json && !bare) {
      Json l { p.body }, m { a.body };
      auto lv = l.value(), mv = m.value();
      l.ws();
      if (l.bad || m.bad || l.at != p.body.size() || lv != mv) {
        violation("X02", "another body", id + ": " + show(p.body, 200) + " instead of " + show(a.body, 200));
      }
    } else if (p.body != (bare ? std::string() : a.body)) {
      violation("X02", "another body", id + ": " + show(p.body) + " (" + std::to_string(p.body.size()) + " bytes) instead of " + show(a.body) + " (" + std::to_string(a.body.size()) + ")");
    }
    bool chunked = p.get("transfer-encoding").has_value(), length = p.get("content-length").has_value();
    if (a.framing == Answer::chunked ? !chunked : a.framing == Answer::length && !length) {
      violation("X02", "another framing", id + ": " + (chunked ? "chunked" : length ? "Content-Length" : "neither"));
    }
    if (length && !json && a.framing == Answer::length && p.get("content-length") != std::to_string(a.body.size())) {
      violation("X02", "another body", id + ": Content-Length " + *p.get("content-length") + " instead of " + std::to_string(a.body.size()));
    }
  };
  return s;
}

// ----------------------------------------------------------------- routing
struct Trie {
  std::map<char, std::unique_ptr<Trie>> next;
  std::unique_ptr<Trie> param;
  std::map<int, int> routes, wild; // verb -> pattern
  static bool by_verb(const std::map<int, int>& m, int verb, int& pattern, int& as)
  {
    for (int v : { verb, 0 }) {
      if (auto it = m.find(v); it != m.end()) {
        pattern = it->second;
        as = v;
        return true;
      }
    }
    return false;
  }
  bool find(std::string_view path, int verb, int& pattern, int& as) const
  {
    if (path.empty()) {
      return by_verb(routes, verb, pattern, as) || by_verb(wild, verb, pattern, as);
    }
    if (auto it = next.find(path[0]); it != next.end() && it->second->find(path.substr(1), verb, pattern, as)) {
      return true;
    }
    if (param) {
      auto n = std::min(path.find('/'), path.size());
      if (n > 0 && param->find(path.substr(n), verb, pattern, as)) {
        return true;
      }
    }
    return by_verb(wild, verb, pattern, as);
  }
  bool insert(std::string_view p, int verb, int pattern)
  {
    if (p.empty()) {
      return routes.emplace(verb, pattern).second;
    }
    if (p[0] == '#') {
      return wild.emplace(verb, pattern).second;
    }
    auto& c = p[0] == '{' ? param : next[p[0]];
    if (!c) {
      c = std::make_unique<Trie>();
    }
    return c->insert(p.substr(p[0] == '{' ? p.find('}') + 1 : 1), verb, pattern);
  }
};
// the values of a pattern's parameters in a path it matches
KV bound(std::string_view pattern, std::string_view path)
{
  KV r;
  std::size_t i = 0;
  for (std::size_t k = 0; k < pattern.size();) {
    if (pattern[k] == '{') {
      auto e = pattern.find('}', k);
      auto n = std::min(path.find('/', i), path.size());
      r.emplace_back(std::string(pattern.substr(k + 1, e - k - 1)), std::string(path.substr(i, n - i)));
      i = n;
      k = e + 1;
    } else if (pattern[k] == '#') {
      r.emplace_back(std::string(pattern.substr(k + 1)), std::string(path.substr(i)));
      break;
    } else {
      ++i;
      ++k;
    }
  }
  return r;
}
Trie* g_trie;

Step make_rt(const std::string& st, const std::string& rid)
{
  Step s;
  s.rid = rid;
  s.props = "R01";
  std::string path = "/rt";
  if (!app_config.routes.empty() && pick(st, 2)) {
    // an instance of a registered pattern, sometimes changed a little
    static const char* const vals[] = { "a", "ab", "b", "c", "zz", "a.c", "{q}", "x y", "log", "\xc3\xa9", "abd" };
    std::string_view pat = route_patterns[app_config.routes[pick(st, static_cast<std::uint32_t>(app_config.routes.size()))].pattern];
    path.clear();
    for (std::size_t k = 0; k < pat.size(); ++k) {
      if (pat[k] == '{') {
        path += vals[pick(st, 11)];
        k = pat.find('}', k);
      } else if (pat[k] == '#') {
        auto n = pick(st, 3);
        for (std::uint32_t i = 0; i < n; ++i) {
          path += std::string(i ? "/" : "") + vals[pick(st, 11)];
        }
        break;
      } else {
        path += pat[k];
      }
    }
    switch (pick(st, 8)) {
    case 0: path += "/"; break;
    case 1: path += "x"; break;
    case 2:
      if (path.size() > 4) {
        path.pop_back();
      }
      break;
    case 3: path += "/b"; break;
    default: break;
    }
  } else {
    static const char* const segs[] = { "a", "ab", "abc", "abd", "b", "c", "x", "login", "logout", "log", "a.c", "a+b", "aab", "aXc", "(x)", "a*", "x$y", "", "{q}", "lo", "d", "e", "~-_!,;=:@", "aaa" };
    auto n = pick(st, 5);
    for (std::uint32_t i = 0; i < n; ++i) {
      path += std::string("/") + segs[pick(st, 24)];
    }
    if (pick(st, 4) == 3) {
      path += "/";
    }
  }
  // what is sent: every byte that must be, and sometimes one that need not be, is percent-encoded
  std::string enc;
  for (unsigned char c : path) {
    char b[8];
    bool must = c <= 0x20 || c >= 0x7f || c == '{' || c == '}' || c == '%' || c == '"';
    if (must || (c != '/' && pick(st, 24) == 23)) {
      snprintf(b, sizeof b, "%%%02X", c);
      enc += b;
    } else {
      enc += static_cast<char>(c);
    }
  }
  int verb = 1 + static_cast<int>(pick(st, 5));
  s.rq.method = route_verbs[verb];
  s.rq.target = enc + "?r=" + rid;
  s.rq.headers = { { "Host", "x" } };
  s.what = s.rq.method + " " + path;
  int pattern = -1, as = 0;
  bool found = g_trie->find(path, verb, pattern, as);
  Want w;
  w.props = "R01";
  w.what = s.what;
  w.handler = found;
  std::string body;
  if (found) {
    w.check_value = w.check_kv = true;
    w.value = std::to_string(pattern) + "." + std::to_string(as);
    w.kv = bound(route_patterns[pattern], path);
    w.err = route_patterns[pattern];
    body = "rt|" + w.value;
    s.what += " (" + w.err + ")";
  }
  g->want[rid] = w;
  s.judge = [found, body](const Step& x, const std::string& id) {
    auto& p = x.resp;
    if (found ? p.status != 200 || p.body != body || p.get("x-r") != x.rid : p.status != 404) {
      std::string got = std::to_string(p.status);
      if (p.body.rfind("rt|", 0) == 0) {
        auto k = atoi(p.body.c_str() + 3);
        got += std::string(" from ") + (k >= 0 && k < n_route_patterns ? route_patterns[k] : "?");
      }
      std::string regs;
      for (auto& r : app_config.routes) {
        regs += std::string(" ") + route_verbs[r.verb] + ":" + route_patterns[r.pattern];
      }
      violation("R01", found ? p.status == 404 ? "registered route not found" : "wrong route" : "route matched that should not", id + " answered " + got + "; registered:" + regs);
    }
  };
  return s;
}

void run_app()
{
  CaseRun run;
  g = &run;
  static const int logging[] = { 0, 1, 1, 0, 1, 2 };
  app_config.logging = logging[pick("cfg", 6)];
  AppRun::profile_net_and_files(false);
  app_config.body_limit = 8 * 1024 * 1024;
  // which routes exist, and in which order they were added
  Trie trie;
  g_trie = &trie;
  std::vector<int> refused;
  auto n = pick("routes", 16);
  for (std::uint32_t i = 0; i < n; ++i) {
    RoutePlan p { static_cast<int>(pick("routes", n_route_patterns)), pick("routes", 2) ? 1 : static_cast<int>(pick("routes", 6)) };
    app_config.routes.push_back(p);
    if (!trie.insert(route_patterns[p.pattern], p.verb, p.pattern)) {
      refused.push_back(static_cast<int>(i));
    }
  }
  AppRun r;
  r.props = "M01 M02 X01 X02 R01 L03";
  r.make = [](const std::string& st, int c, int k) {
    auto rid = "a" + std::to_string(c) + "_" + std::to_string(k);
    switch (pick(st, 11)) {
    case 9:
    case 10: return make_y(st, rid);
    case 8: return make_lg(st, rid);
    case 0:
    case 1:
    case 2: return make_mw(st, rid);
    case 3: return make_state(st, rid);
    case 4:
    case 5: return make_x(st, rid);
    default: return make_rt(st, rid);
    }
  };
  r.finish = [&] {
    if (app_config.failed_routes != refused) {
      std::string a, b;
      for (auto i : app_config.failed_routes) {
        a += " " + std::string(route_verbs[app_config.routes[static_cast<std::size_t>(i)].verb]) + ":" + route_patterns[app_config.routes[static_cast<std::size_t>(i)].pattern];
      }
      for (auto i : refused) {
        b += " " + std::string(route_verbs[app_config.routes[static_cast<std::size_t>(i)].verb]) + ":" + route_patterns[app_config.routes[static_cast<std::size_t>(i)].pattern];
      }
      violation("R01", "duplicate routes", "refused:" + a + "; duplicates are:" + b);
    }
    std::map<std::string, Step*> by;
    for (auto& c : r.clients) {
      for (auto& s : c->steps) {
        by[s.rid] = &s;
      }
    }
    judge_log(r);
    std::map<std::string, int> runs;
    std::vector<int> counts;
    for (auto& o : app_world.obs) {
      for (auto& [k, v] : o->kv) {
        if (k == "n" && o->route == "state") {
          counts.push_back(atoi(v.c_str()));
        }
      }
      auto it = run.want.find(o->rid);
      if (it == run.want.end()) {
        violation(r.props, "request nobody sent", o->rid);
        continue;
      }
      auto& w = it->second;
      auto id = o->rid + " (" + w.what + ")";
      if (w.handler == 0) {
        violation(w.props, "handler ran for a request it should not see", id + ": " + o->value);
        continue;
      }
      if (++runs[o->rid] > 1) {
        violation(w.props, "handler ran twice", id);
      }
      if (w.check_value && o->value != w.value) {
        violation(w.props, w.props == "X01" || w.props == "X02" ? "wrong value extracted" : w.props == "M02" ? "wrong state" : "wrong route", id + ": " + show(o->value) + " instead of " + show(w.value));
      }
      auto kv = o->kv;
      if (w.props == "M02" || w.props == "X01" || w.props == "X02") {
        continue;
      }
      if (w.check_kv && o->has_body != w.check_body) {
        continue;
      }
      if (w.check_kv && (w.props == "R01" || o->body_ok) && kv != w.kv) {
        std::string a, b;
        for (auto& [k, v] : kv) {
          a += " " + k + "=" + v;
        }
        for (auto& [k, v] : w.kv) {
          b += " " + k + "=" + v;
        }
        violation(w.props, w.props == "R01" ? "wrong parameters" : "request altered on its way to the handler", id + ": saw" + show(a, 300) + " instead of" + show(b, 300));
      }
      if (w.check_body && o->body_ok && o->body != w.body) {
        violation(w.props, "request altered on its way to the handler", id + ": body " + show(o->body) + " instead of " + show(w.body));
      }
      if (!w.err.empty() && o->err != w.err) {
        violation(w.props, "wrong route", id + ": pattern " + o->err);
      }
    }
    std::sort(counts.begin(), counts.end());
    for (std::size_t i = 0; i < counts.size(); ++i) {
      if (counts[i] != static_cast<int>(i) + 1) {
        violation("M02", "shared state not shared", "the counter all routes under /st share was seen as " + std::to_string(counts[i]) + " by the handler that came number " + std::to_string(i + 1));
        break;
      }
    }
    for (auto& [rid, w] : run.want) {
      auto* s = by[rid];
      if (s->state != Step::done || s->cut != Step::none) {
        // may have got anywhere, but not elsewhere
        if (w.check_trail) {
          auto& t = app_world.events[rid];
          bool pre = false;
          for (auto& x : w.trails) {
            pre |= t.size() <= x.size() && std::equal(t.begin(), t.end(), x.begin());
          }
          if (!pre) {
            violation(w.props, "middlewares out of order", rid + " (" + w.what + ")");
          }
        }
        continue;
      }
      if (w.handler == 1 && !runs[rid]) {
        violation(w.props, "response without handler", rid + " (" + w.what + ")");
      }
      if (w.check_trail && std::find(w.trails.begin(), w.trails.end(), app_world.events[rid]) == w.trails.end()) {
        std::string a, b;
        for (auto& x : app_world.events[rid]) {
          a += " " + x;
        }
        for (auto& x : w.trails[0]) {
          b += " " + x;
        }
        violation(w.props, "middlewares out of order", rid + " (" + w.what + "):" + a + " instead of" + b);
      }
    }
  };
  r.go();
}
Register r3("app", run_app);
} // namespace
} // namespace sim
