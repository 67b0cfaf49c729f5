// Independent HTTP/1.x encoder and parser used by the simulated clients.
#pragma once
#include "harness.hpp"
#include <algorithm>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace sim::http {

using Headers = std::vector<std::pair<std::string, std::string>>;

inline char lower(char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; }
inline bool ieq(std::string_view a, std::string_view b)
{
  return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](char x, char y) { return lower(x) == lower(y); });
}
inline std::string_view trim(std::string_view s)
{
  while (!s.empty() && (s.front() == ' ' || s.front() == '\t')) {
    s.remove_prefix(1);
  }
  while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) {
    s.remove_suffix(1);
  }
  return s;
}

struct Response {
  int status = 0;
  int minor = 1;
  std::string reason;
  Headers headers;
  std::string body;
  enum Framing { none, length, chunked, until_close } framing = none;
  std::size_t length_value = 0;
  std::size_t chunks = 0;
  bool complete = false;      // body fully received
  bool head_complete = false;
  std::string error;          // protocol violation
  std::size_t consumed = 0;   // bytes of the stream used when complete
  std::optional<std::string> get(std::string_view name) const
  {
    for (auto& [k, v] : headers) {
      if (ieq(k, name)) {
        return v;
      }
    }
    return std::nullopt;
  }
  std::vector<std::string> all(std::string_view name) const
  {
    std::vector<std::string> r;
    for (auto& [k, v] : headers) {
      if (ieq(k, name)) {
        r.push_back(v);
      }
    }
    return r;
  }
};

// Parses one response at the start of `in`; `eof` = the peer finished sending.
inline Response parse_response(std::string_view in, bool head_request, bool eof)
{
  Response r;
  auto he = in.find("\r\n\r\n");
  if (he == std::string_view::npos) {
    // cheap sanity check of what is there
    static constexpr std::string_view pre = "HTTP/1.";
    auto n = std::min(pre.size(), in.size());
    if (in.substr(0, n) != pre.substr(0, n)) {
      r.error = "not a status line: " + show(in);
    }
    return r;
  }
  auto head = in.substr(0, he + 2);
  auto le = head.find("\r\n");
  auto line = head.substr(0, le);
  if (line.size() < 12 || line.substr(0, 7) != "HTTP/1." || line[8] != ' ' || (line.size() > 12 && line[12] != ' ')) {
    r.error = "bad status line: " + show(line);
    return r;
  }
  r.minor = line[7] - '0';
  for (int i = 9; i < 12; ++i) {
    if (line[static_cast<std::size_t>(i)] < '0' || line[static_cast<std::size_t>(i)] > '9') {
      r.error = "bad status: " + show(line);
      return r;
    }
    r.status = r.status * 10 + (line[static_cast<std::size_t>(i)] - '0');
  }
  r.reason = line.size() > 13 ? std::string(line.substr(13)) : "";
  head.remove_prefix(le + 2);
  while (!head.empty()) {
    auto e = head.find("\r\n");
    auto l = head.substr(0, e);
    head.remove_prefix(e + 2);
    auto c = l.find(':');
    if (c == std::string_view::npos || c == 0) {
      r.error = "bad header line: " + show(l);
      return r;
    }
    for (char ch : l.substr(0, c)) {
      if (ch == ' ' || ch == '\t') {
        r.error = "space in header name: " + show(l);
        return r;
      }
    }
    r.headers.emplace_back(std::string(l.substr(0, c)), std::string(trim(l.substr(c + 1))));
  }
  r.head_complete = true;
  std::size_t pos = he + 4;
  auto te = r.get("transfer-encoding");
  auto cls = r.all("content-length");
  if (cls.size() > 1) {
    r.error = "several Content-Length headers";
    return r;
  }
  if (te && !cls.empty()) {
    r.error = "both Transfer-Encoding and Content-Length";
    return r;
  }
  if (!cls.empty()) {
    for (char c : cls[0]) {
      if (c < '0' || c > '9') {
        r.error = "bad Content-Length " + cls[0];
        return r;
      }
      r.length_value = r.length_value * 10 + static_cast<std::size_t>(c - '0');
    }
  }
  if (head_request || r.status / 100 == 1 || r.status == 204 || r.status == 304) {
    r.framing = Response::none;
    r.complete = true;
    r.consumed = pos;
    if ((r.status / 100 == 1 || r.status == 204) && (te || (!cls.empty()))) {
      r.error = "bodyless status with framing header";
    }
    return r;
  }
  if (te) {
    if (!ieq(*te, "chunked")) {
      r.error = "Transfer-Encoding " + *te;
      return r;
    }
    r.framing = Response::chunked;
    for (;;) {
      auto e = in.find("\r\n", pos);
      if (e == std::string_view::npos) {
        return r;
      }
      auto l = in.substr(pos, e - pos);
      std::size_t n = 0, digits = 0;
      for (char c : l) {
        int d = c >= '0' && c <= '9' ? c - '0' : lower(c) >= 'a' && lower(c) <= 'f' ? lower(c) - 'a' + 10 : -1;
        if (d < 0) {
          break;
        }
        n = n * 16 + static_cast<std::size_t>(d);
        ++digits;
      }
      if (digits == 0 || (digits < l.size() && l[digits] != ';' && l[digits] != ' ')) {
        r.error = "bad chunk size line: " + show(l);
        return r;
      }
      pos = e + 2;
      if (n == 0) {
        // trailers
        for (;;) {
          auto t = in.find("\r\n", pos);
          if (t == std::string_view::npos) {
            return r;
          }
          bool last = t == pos;
          pos = t + 2;
          if (last) {
            break;
          }
        }
        r.complete = true;
        r.consumed = pos;
        return r;
      }
      auto avail = std::min(n, in.size() - pos);
      r.body.append(in.substr(pos, avail));
      if (avail < n) {
        return r;
      }
      pos += n;
      if (in.size() < pos + 2) {
        return r;
      }
      if (in.substr(pos, 2) != "\r\n") {
        r.error = "chunk data not followed by CRLF";
        return r;
      }
      pos += 2;
      ++r.chunks;
    }
  }
  if (!cls.empty()) {
    r.framing = Response::length;
    r.body = std::string(in.substr(pos, r.length_value));
    if (r.body.size() == r.length_value) {
      r.complete = true;
      r.consumed = pos + r.length_value;
    }
    return r;
  }
  r.framing = Response::until_close;
  r.body = std::string(in.substr(pos));
  r.complete = eof;
  r.consumed = in.size();
  return r;
}

// ---------------------------------------------------------------- requests
struct Request {
  std::string method = "GET";
  std::string target = "/";
  int minor = 1;
  Headers headers;
  std::string body;
  enum Framing { none, length, chunked } framing = none;
  std::vector<std::size_t> chunk_sizes; // cyclic
  bool chunk_ext = false, trailers = false;
  std::string head() const
  {
    std::string s = method + " " + target + " HTTP/1." + std::to_string(minor) + "\r\n";
    for (auto& [k, v] : headers) {
      s += k + ": " + v + "\r\n";
    }
    if (framing == length) {
      s += "Content-Length: " + std::to_string(body.size()) + "\r\n";
    } else if (framing == chunked) {
      s += "Transfer-Encoding: chunked\r\n";
    }
    return s + "\r\n";
  }
  std::string payload() const
  {
    if (framing == none) {
      return "";
    }
    if (framing == length) {
      return body;
    }
    std::string s;
    std::size_t p = 0, i = 0;
    while (p < body.size()) {
      auto n = chunk_sizes.empty() ? body.size() : std::max<std::size_t>(1, chunk_sizes[i++ % chunk_sizes.size()]);
      n = std::min(n, body.size() - p);
      char b[32];
      snprintf(b, sizeof b, i % 2 ? "%zx" : "%zX", n);
      s += b;
      if (chunk_ext && i % 3 == 0) {
        s += ";a=b";
      }
      s += "\r\n";
      s += body.substr(p, n);
      s += "\r\n";
      p += n;
    }
    s += "0\r\n";
    if (trailers) {
      s += "X-Trailer: t\r\n";
    }
    return s + "\r\n";
  }
  std::string wire() const { return head() + payload(); }
};

} // namespace sim::http
