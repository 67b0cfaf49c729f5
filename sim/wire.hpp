// A simulated client's byte channel: plain, or TLS through OpenSSL.
#pragma once
#include "harness.hpp"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <algorithm>
#include <functional>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>

namespace sim {

// OpenSSL mixes addresses and cycle counters into its generator
inline std::uint64_t& openssl_rand_state()
{
  static std::uint64_t s;
  return s;
}
inline void deterministic_openssl()
{
  static RAND_METHOD m {};
  m.bytes = [](unsigned char* b, int n) {
    auto& g = openssl_rand_state();
    for (int i = 0; i < n; ++i) {
      g = g * 6364136223846793005ull + 1442695040888963407ull;
      b[i] = static_cast<unsigned char>(g >> 56);
    }
    return 1;
  };
  m.pseudorand = m.bytes;
  m.status = [] { return 1; };
  openssl_rand_state() = choices.seed * 2 + 1;
  RAND_set_rand_method(&m);
}

struct Wire : Peer {
  std::string label;
  bool tls = false;
  Conn* conn = nullptr;
  bool connected = false, refused = false, fin = false, rst = false, closed = false, hs_done = false, close_notify = false;
  bool tls_error = false;
  std::function<void()> on_ready;                 // may send
  std::function<void(std::string_view)> on_plain; // bytes from the server
  std::function<void()> on_end;                   // FIN or RST
  ~Wire() override
  {
    if (ssl) {
      SSL_free(ssl);
    }
  }
  void send(std::string_view d)
  {
    if (closed || d.empty()) {
      return;
    }
    if (tls) {
      SSL_write(ssl, d.data(), static_cast<int>(d.size()));
      flush();
    } else {
      conn->send(d);
    }
  }
  void close()
  {
    if (!closed && conn) {
      closed = true;
      conn->close();
    }
  }
  void end_tls()
  {
    if (tls && hs_done && !closed) {
      SSL_shutdown(ssl);
      flush();
    }
  }
  void on_connected() override
  {
    connected = true;
    if (tls) {
      static SSL_CTX* ctx = [] {
        auto* c = SSL_CTX_new(TLS_client_method());
        SSL_CTX_set_verify(c, SSL_VERIFY_NONE, nullptr);
        return c;
      }();
      ssl = SSL_new(ctx);
      rb = BIO_new(BIO_s_mem());
      wb = BIO_new(BIO_s_mem());
      SSL_set_bio(ssl, rb, wb);
      SSL_set_connect_state(ssl);
      after(0, [this] { step(); });
    } else {
      after(0, [this] { on_ready(); });
    }
  }
  void on_refused() override { refused = true; }
  void on_reset() override
  {
    rst = true;
    if (on_end) {
      on_end();
    }
    close();
  }
  void on_fin() override
  {
    fin = true;
    if (on_end) {
      on_end();
    }
    close();
  }
  void on_data(std::string_view d) override
  {
    if (!tls) {
      on_plain(d);
      return;
    }
    BIO_write(rb, d.data(), static_cast<int>(d.size()));
    step();
  }

  // when the server last had bytes it could make sense of: with TLS nothing
  // of a record is usable before all of it has arrived
  ns_t t_last_usable() const
  {
    if (!tls) {
      return conn->t_last_recv;
    }
    std::uint64_t b = 0;
    for (auto m : marks) {
      if (m <= static_cast<std::uint64_t>(conn->got_by_server)) {
        b = m;
      }
    }
    for (auto& [t, n] : conn->recv_log) {
      if (n >= b) {
        return t;
      }
    }
    return conn->t_last_recv;
  }

private:
  SSL* ssl = nullptr;
  std::uint64_t wire_bytes = 0;
  std::vector<std::uint64_t> marks;
  BIO *rb = nullptr, *wb = nullptr;
  void flush()
  {
    char b[16384];
    int n;
    while ((n = BIO_read(wb, b, sizeof b)) > 0) {
      conn->send({ b, static_cast<std::size_t>(n) });
      wire_bytes += static_cast<std::uint64_t>(n);
    }
    marks.push_back(wire_bytes);
  }
  void step()
  {
    if (!hs_done) {
      int r = SSL_do_handshake(ssl);
      flush();
      if (r != 1) {
        ERR_clear_error();
        return;
      }
      hs_done = true;
      on_ready();
    }
    char b[16384];
    for (;;) {
      int n = SSL_read(ssl, b, sizeof b);
      if (n > 0) {
        on_plain({ b, static_cast<std::size_t>(n) });
        continue;
      }
      int er = SSL_get_error(ssl, n);
      if (er == SSL_ERROR_ZERO_RETURN) {
        close_notify = true;
      } else if (er == SSL_ERROR_SSL && ERR_GET_REASON(ERR_peek_error()) != SSL_R_PROTOCOL_IS_SHUTDOWN) {
        tls_error = true;
      }
      ERR_clear_error();
      break;
    }
    flush();
  }
};

} // namespace sim
