// A server on a loopback port and a plain blocking client.
#pragma once
#include <fitoria/web.hpp>
#include <arpa/inet.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace fitoria;
using namespace fitoria::web;

inline int failures = 0;
#define CHECK(x) ((x) ? (void)0 : (void)(++failures, std::cout << "FAILED " << __LINE__ << ": " #x << std::endl))

inline std::uint16_t bind_somewhere(http_server& s)
{
  for (int i = 0; i < 200; ++i) {
    auto port = static_cast<std::uint16_t>(20000 + (getpid() * 7 + i * 131) % 20000);
    if (s.bind("127.0.0.1", port)) {
      return port;
    }
  }
  std::cout << "no port" << std::endl;
  std::exit(0);
}

struct client {
  int fd;
  explicit client(std::uint16_t port)
  {
    fd = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) {
      perror("connect");
    }
  }
  ~client() { close(); }
  void close()
  {
    if (fd >= 0) {
      ::close(fd);
    }
    fd = -1;
  }
  void send(std::string_view d)
  {
    while (!d.empty()) {
      auto n = ::send(fd, d.data(), d.size(), MSG_NOSIGNAL);
      if (n <= 0) {
        return;
      }
      d.remove_prefix(static_cast<std::size_t>(n));
    }
  }
  bool eof = false;
  // whatever arrives until `ms` pass without anything, or the end
  std::string recv(int ms, std::string_view until = "")
  {
    std::string r;
    char b[65536];
    for (;;) {
      pollfd p { fd, POLLIN, 0 };
      if (poll(&p, 1, ms) <= 0) {
        return r;
      }
      auto n = ::recv(fd, b, sizeof b, 0);
      if (n <= 0) {
        eof = true;
        return r;
      }
      r.append(b, static_cast<std::size_t>(n));
      if (!until.empty() && r.find(until) != r.npos) {
        return r;
      }
    }
  }
};
inline bool has(std::string_view s, std::string_view t) { return s.find(t) != s.npos; }
inline int count(std::string_view s, std::string_view t)
{
  int n = 0;
  for (std::size_t p = 0; (p = s.find(t, p)) != s.npos; p += t.size()) {
    ++n;
  }
  return n;
}
inline void nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
