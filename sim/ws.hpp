// Independent RFC 6455 framing for the simulated WebSocket clients.
#pragma once
#include "harness.hpp"
#include <openssl/evp.h>
#include <openssl/sha.h>

namespace sim::ws {

enum Op : int { cont = 0, text = 1, binary = 2, close = 8, ping = 9, pong = 10 };

inline std::string accept_key(const std::string& key)
{
  auto s = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
  unsigned char d[20], o[32];
  SHA1(reinterpret_cast<const unsigned char*>(s.data()), s.size(), d);
  int n = EVP_EncodeBlock(o, d, 20);
  return { reinterpret_cast<char*>(o), static_cast<std::size_t>(n) };
}

inline std::string frame(int op, bool fin, std::string_view data, std::uint32_t mask, bool masked = true, int rsv = 0)
{
  std::string s;
  s += static_cast<char>((fin ? 0x80 : 0) | (rsv << 4) | op);
  int m = masked ? 0x80 : 0;
  if (data.size() < 126) {
    s += static_cast<char>(m | static_cast<int>(data.size()));
  } else if (data.size() < 65536) {
    s += static_cast<char>(m | 126);
    s += static_cast<char>(data.size() >> 8);
    s += static_cast<char>(data.size() & 255);
  } else {
    s += static_cast<char>(m | 127);
    for (int i = 7; i >= 0; --i) {
      s += static_cast<char>((static_cast<std::uint64_t>(data.size()) >> (8 * i)) & 255);
    }
  }
  if (masked) {
    char k[4];
    for (int i = 0; i < 4; ++i) {
      k[i] = static_cast<char>(mask >> (8 * i));
      s += k[i];
    }
    for (std::size_t i = 0; i < data.size(); ++i) {
      s += static_cast<char>(data[i] ^ k[i % 4]);
    }
  } else {
    s += data;
  }
  return s;
}
inline std::string close_payload(int code, const std::string& reason)
{
  if (code == 0) {
    return "";
  }
  std::string s;
  s += static_cast<char>(code >> 8);
  s += static_cast<char>(code & 255);
  return s + reason;
}

struct Frame {
  int op = 0;
  bool fin = false;
  std::string data;
};
// Takes frames off the front of `in`; error is set on a violation by the server.
struct Decoder {
  std::string in, error;
  bool take(Frame& f)
  {
    if (!error.empty() || in.size() < 2) {
      return false;
    }
    auto b0 = static_cast<unsigned char>(in[0]), b1 = static_cast<unsigned char>(in[1]);
    if (b0 & 0x70) {
      error = "reserved bits set";
      return false;
    }
    if (b1 & 0x80) {
      error = "frame from the server is masked";
      return false;
    }
    f.op = b0 & 15;
    f.fin = b0 & 0x80;
    std::uint64_t n = b1 & 127;
    std::size_t p = 2;
    if (n == 126) {
      if (in.size() < 4) {
        return false;
      }
      n = static_cast<std::uint64_t>(static_cast<unsigned char>(in[2])) << 8 | static_cast<unsigned char>(in[3]);
      p = 4;
      if (n < 126) {
        error = "length not minimal";
        return false;
      }
    } else if (n == 127) {
      if (in.size() < 10) {
        return false;
      }
      n = 0;
      for (std::size_t i = 2; i < 10; ++i) {
        n = n << 8 | static_cast<unsigned char>(in[i]);
      }
      p = 10;
      if (n < 65536) {
        error = "length not minimal";
        return false;
      }
    }
    if (f.op != cont && f.op != text && f.op != binary && f.op != close && f.op != ping && f.op != pong) {
      error = "opcode " + std::to_string(f.op);
      return false;
    }
    if (f.op >= 8 && (n > 125 || !f.fin)) {
      error = "bad control frame";
      return false;
    }
    if (n > (1u << 28)) {
      error = "absurd length";
      return false;
    }
    if (in.size() < p + n) {
      return false;
    }
    f.data = in.substr(p, n);
    in.erase(0, p + n);
    return true;
  }
};
} // namespace sim::ws
