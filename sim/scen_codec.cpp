// Compressed request bodies, and compressing response streams.
#include "app_run.hpp"
#include <brotli/decode.h>
#include <brotli/encode.h>
#include <boost/beast/zlib/inflate_stream.hpp>
#include <zlib.h>

namespace sim {
namespace {

std::string z_pack(const std::string& in, int wbits, int level, std::size_t flush_every)
{
  z_stream z {};
  deflateInit2(&z, level, Z_DEFLATED, wbits, 8, Z_DEFAULT_STRATEGY);
  std::string out;
  char b[65536];
  std::size_t pos = 0;
  for (;;) {
    auto n = flush_every ? std::min(flush_every, in.size() - pos) : in.size() - pos;
    z.next_in = reinterpret_cast<unsigned char*>(const_cast<char*>(in.data() + pos));
    z.avail_in = static_cast<unsigned>(n);
    pos += n;
    bool last = pos == in.size();
    int r;
    do {
      z.next_out = reinterpret_cast<unsigned char*>(b);
      z.avail_out = sizeof b;
      r = deflate(&z, last ? Z_FINISH : Z_SYNC_FLUSH);
      out.append(b, sizeof b - z.avail_out);
    } while (z.avail_out == 0);
    if (last) {
      (void)r;
      break;
    }
  }
  deflateEnd(&z);
  return out;
}
std::string br_pack(const std::string& in, int quality)
{
  std::string out(BrotliEncoderMaxCompressedSize(in.size()) + 64, 0);
  std::size_t n = out.size();
  BrotliEncoderCompress(quality, 18, BROTLI_DEFAULT_MODE, in.size(), reinterpret_cast<const std::uint8_t*>(in.data()), &n, reinterpret_cast<std::uint8_t*>(out.data()));
  out.resize(n);
  return out;
}
// nullopt: not exactly one complete stream
std::optional<std::string> z_unpack(const std::string& in, int wbits)
{
  z_stream z {};
  inflateInit2(&z, wbits);
  std::string out;
  char b[65536];
  z.next_in = reinterpret_cast<unsigned char*>(const_cast<char*>(in.data()));
  z.avail_in = static_cast<unsigned>(in.size());
  int r;
  do {
    z.next_out = reinterpret_cast<unsigned char*>(b);
    z.avail_out = sizeof b;
    r = inflate(&z, Z_NO_FLUSH);
    out.append(b, sizeof b - z.avail_out);
  } while (r == Z_OK);
  bool ok = r == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  return ok ? std::optional(out) : std::nullopt;
}
std::optional<std::string> br_unpack(const std::string& in)
{
  auto* s = BrotliDecoderCreateInstance(nullptr, nullptr, nullptr);
  std::string out;
  std::size_t avail = in.size();
  auto* next = reinterpret_cast<const std::uint8_t*>(in.data());
  std::vector<std::uint8_t> b(65536);
  BrotliDecoderResult r;
  do {
    auto* o = b.data();
    std::size_t room = b.size();
    r = BrotliDecoderDecompressStream(s, &avail, &next, &room, &o, nullptr);
    out.append(reinterpret_cast<char*>(b.data()), b.size() - room);
  } while (r == BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT);
  BrotliDecoderDestroyInstance(s);
  return r == BROTLI_DECODER_RESULT_SUCCESS && avail == 0 ? std::optional(out) : std::nullopt;
}

// What Boost's own inflater makes of a raw deflate stream: it wants to look further ahead than
// the codes at the end of a stream may reach, so for some streams it cannot tell the end.
// nullopt: it does not see the end, even if one byte of 0x55 followed.
std::optional<std::string> beast_unpack(const std::string& in)
{
  using namespace boost::beast::zlib;
  inflate_stream s;
  std::string out;
  std::vector<char> b(65536);
  z_params p;
  p.next_in = in.data();
  p.avail_in = in.size();
  boost::beast::error_code ec;
  do {
    p.next_out = b.data();
    p.avail_out = b.size();
    s.write(p, Flush::sync, ec);
    out.append(b.data(), b.size() - p.avail_out);
  } while (!ec && p.avail_out == 0);
  if (!ec || ec == error::need_buffers) {
    char pad = 0x55;
    p.next_in = &pad;
    p.avail_in = 1;
    p.next_out = b.data();
    p.avail_out = 0;
    s.write(p, Flush::sync, ec);
  } else if (p.avail_in) {
    return std::nullopt;
  }
  return ec == error::end_of_stream ? std::optional(out) : std::nullopt;
}

struct Sent {
  std::string plain;
  enum { exact, exact_or_error, error, anything, refused } want = exact;
  std::string what;
};
struct CodecRun {
  std::map<std::string, Sent> sent;
};
CodecRun* g;

std::string content(const std::string& st, std::uint64_t key, std::size_t max)
{
  static const std::size_t sizes[] = { 0, 1, 100, 65535, 65536, 65537, 131072, 196608 };
  std::size_t n = pick(st, 2) ? sizes[pick(st, 8)] : pick(st, 250000);
  n = std::min(n, max);
  switch (pick(st, 4)) {
  case 0: return blob(key, n);
  case 1: return std::string(pick(st, 3) ? n : std::min<std::size_t>(n * 8, max), 'z');
  case 2: {
    // expands to exactly a buffer's worth or multiples of it
    std::string s = text_blob(key, 97);
    std::string r;
    while (r.size() < n) {
      r += s;
    }
    r.resize(n);
    return r;
  }
  default: return text_blob(key, n);
  }
}

Step make_dz(const std::string& st, const std::string& rid)
{
  Step s;
  Sent e;
  s.rid = rid;
  s.props = "C01";
  int twist = pick(st, 2) ? 0 : 1 + static_cast<int>(pick(st, 6)); // 1 cut 2 trailing 3 corrupt 4 unknown 5 empty 6 double member
  e.plain = content(st, hash_bytes(rid), twist == 3 ? 20000 : 2000000);
  std::string wire = e.plain, header;
  int last = 0;
  auto layers = pick(st, 4) == 3 ? range(st, 2, 3) : 1;
  for (std::uint32_t i = 0; i < layers; ++i) {
    static const char* const name[][2] = { { "deflate", "Deflate" }, { "gzip", "GZIP" }, { "brotli", "brotli" }, { "identity", "Identity" } };
    auto k = pick(st, i + 1 == layers && layers == 1 ? 3 : 4);
    last = static_cast<int>(k);
    if (k == 0) {
      auto packed = z_pack(wire, -15, static_cast<int>(pick(st, 10)), pick(st, 3) ? 0 : range(st, 1000, 70000));
      if (beast_unpack(packed) != wire) {
        count("deflate_beyond_boost");
        e.want = Sent::exact_or_error;
      }
      wire = packed;
    } else if (k == 1) {
      wire = z_pack(wire, 31, static_cast<int>(pick(st, 10)), pick(st, 3) ? 0 : range(st, 1000, 70000));
    } else if (k == 2) {
      wire = br_pack(wire, static_cast<int>(pick(st, 6)));
    }
    header += std::string(header.empty() ? "" : pick(st, 2) ? ", " : ",") + name[k][pick(st, 6) == 5];
  }
  s.what = header + " " + std::to_string(e.plain.size()) + " bytes packed to " + std::to_string(wire.size());
  switch (twist) {
  case 1:
    if (!wire.empty() && last != 3 && layers == 1) {
      auto k = pick(st, 3) ? 1 + pick(st, static_cast<std::uint32_t>(std::min<std::size_t>(wire.size(), 20))) : 1 + pick(st, static_cast<std::uint32_t>(wire.size()));
      wire.resize(wire.size() - k);
      e.want = wire.empty() || (last == 0 && beast_unpack(wire)) ? Sent::anything : Sent::error;
      s.what += ", cut short";
    }
    break;
  case 2:
    if (last != 3 && layers == 1) {
      wire += blob(hash_bytes(rid) + 1, 1 + pick(st, 100));
      e.want = Sent::exact_or_error;
      s.what += ", bytes behind the end";
    }
    break;
  case 3:
    if (!wire.empty() && layers == 1) {
      wire[pick(st, static_cast<std::uint32_t>(wire.size()))] ^= static_cast<char>(1 + pick(st, 255));
      e.want = last == 1 ? Sent::exact_or_error : Sent::anything;
      s.what += ", corrupted";
    }
    break;
  case 4: {
    static const char* const u[] = { "br", "zstd", "deflate2", "gzip, compress" };
    header = u[pick(st, 4)];
    e.want = Sent::refused;
    s.what += ", sent as " + header;
    break;
  }
  case 5:
    wire.clear();
    e.want = Sent::anything;
    s.what += ", sent empty";
    break;
  case 6:
    if (last == 1 && layers == 1) {
      auto more = text_blob(hash_bytes(rid) + 2, 100);
      wire += z_pack(more, 31, 6, 0);
      e.plain += more;
      e.want = Sent::exact_or_error;
      s.what += ", two members";
    }
    break;
  default: break;
  }
  s.rq.method = "POST";
  s.rq.target = (pick(st, 2) ? "/z/dz?r=" : "/z/dzp?r=") + rid;
  if (auto shape = pick(st, 7); shape >= 4) {
    s.rq.target += "&shape=" + std::to_string(shape - 3);
    s.what += ", handed on in other pieces";
  }
  s.rq.headers = { { "Host", "x" }, { "Content-Encoding", header } };
  if (pick(st, 12) == 11 && e.want == Sent::exact) {
    s.rq.headers.pop_back(); // not encoded at all: passes through
    e.plain = wire;
    s.what += ", announced as plain";
  }
  s.rq.body = wire;
  s.rq.framing = pick(st, 2) ? http::Request::length : http::Request::chunked;
  auto k = range(st, 1, 4);
  for (std::uint32_t i = 0; i < k; ++i) {
    s.rq.chunk_sizes.push_back(pick(st, 2) ? range(st, 1, 200) * 41 : range(st, 20000, 90000));
  }
  if (pick(st, 10) == 9) {
    s.cut = static_cast<Step::Cut>(1 + pick(st, 3));
    s.cut_at = 1 + pick(st, static_cast<std::uint32_t>(s.rq.wire().size()));
    s.what += ", connection cut";
  }
  s.unread = e.want != Sent::exact;
  e.what = s.what;
  g->sent[rid] = e;
  auto whole = s.cut == Step::none;
  s.judge = [rid, whole](const Step& x, const std::string& id) {
    auto& e = g->sent[rid];
    auto status = x.resp.status;
    if (status == 200) {
      if (x.resp.get("x-r") != rid) {
        violation("C01", "another request's answer", id);
      } else if (!whole || e.want == Sent::error || e.want == Sent::refused) {
        violation("C01", "incomplete or unsupported body accepted", id);
      } else if ((e.want == Sent::exact || e.want == Sent::exact_or_error) && x.resp.body != "len:" + std::to_string(e.plain.size()) + ":" + std::to_string(hash_bytes(e.plain))) {
        violation("C01", "wrong content decoded", id + ": " + x.resp.body);
      }
    } else if (status != 400) {
      violation("C01", "unexpected status", id + ": " + std::to_string(status));
    } else if (whole && e.want == Sent::exact) {
      violation("C01", "valid body refused", id + ": " + show(x.resp.body));
    }
  };
  return s;
}

Step make_cz(const std::string& st, const std::string& rid)
{
  Step s;
  s.rid = rid;
  s.props = "C02";
  static const char* const algs[] = { "deflate", "gzip", "brotli" };
  auto alg = pick(st, 3);
  auto key = pick(st, 1000);
  static const std::size_t sizes[] = { 0, 1, 1000, 65536, 65537, 70000, 131072, 300000 };
  auto n = pick(st, 2) ? sizes[pick(st, 8)] : pick(st, 200000);
  bool text = pick(st, 2);
  auto p = pick(st, 3);
  auto pieces = code_pieces(key, n, static_cast<int>(p));
  int fail = pick(st, 6) == 5 ? static_cast<int>(pick(st, static_cast<std::uint32_t>(pieces.size()) + 1)) : -1;
  s.rq.target = std::string("/cz?r=") + rid + "&alg=" + algs[alg] + "&k=" + std::to_string(key) + "&n=" + std::to_string(n) + "&t=" + (text ? "1" : "0") + "&p=" + std::to_string(p) + (fail >= 0 ? "&f=" + std::to_string(fail) : "");
  s.rq.headers = { { "Host", "x" } };
  s.what = std::string(algs[alg]) + " of " + std::to_string(n) + (text ? " text" : " random") + " bytes in " + std::to_string(pieces.size()) + " pieces" + (fail >= 0 ? ", source fails at " + std::to_string(fail) : "");
  s.drop = fail >= 0 ? Step::must : Step::never;
  s.judge = [alg, key, n, text](const Step& x, const std::string& id) {
    auto& r = x.resp;
    if (r.status != 200 || r.get("x-r") != x.rid) {
      violation("C02", "unexpected response", id + ": " + std::to_string(r.status));
      return;
    }
    auto data = text ? text_blob(key, n) : blob(key, n);
    auto got = alg == 0 ? z_unpack(r.body, -15) : alg == 1 ? z_unpack(r.body, 31) : br_unpack(r.body);
    if (!got) {
      violation("C02", "undecodable stream", id + ": " + std::to_string(r.body.size()) + " bytes received");
    } else if (*got != data) {
      violation("C02", "decodes to something else", id + ": " + std::to_string(got->size()) + " bytes instead of " + std::to_string(data.size()));
    }
  };
  return s;
}

void run_codec()
{
  CodecRun run;
  g = &run;
  AppRun::profile_net_and_files(false);
  app_config.body_limit = 8 * 1024 * 1024;
  AppRun r;
  r.props = "C01 C02";
  r.max_steps = 6;
  r.make = [](const std::string& st, int c, int k) {
    auto rid = "z" + std::to_string(c) + "_" + std::to_string(k);
    return pick(st, 3) == 2 ? make_cz(st, rid) : make_dz(st, rid);
  };
  r.finish = [&] {
    std::map<std::string, Step*> by;
    for (auto& c : r.clients) {
      for (auto& s : c->steps) {
        by[s.rid] = &s;
      }
    }
    for (auto& o : app_world.obs) {
      if (o->route != "dz" && o->route != "dzp") {
        continue;
      }
      auto it = run.sent.find(o->rid);
      if (it == run.sent.end()) {
        violation("C01", "request nobody sent", o->rid);
        continue;
      }
      auto& e = it->second;
      auto id = o->rid + " (" + e.what + ")";
      if (e.want == Sent::refused) {
        violation("C01", "unsupported encoding reached the handler", id);
      }
      bool ok = o->body_ok;
      if (ok && (e.want == Sent::error || e.want == Sent::refused)) {
        violation("C01", "incomplete or unsupported body accepted", id + ": " + std::to_string(o->body.size()) + " bytes");
      } else if (ok && e.want != Sent::anything && o->body != e.plain) {
        violation("C01", by[o->rid]->cut != Step::none ? "incomplete or unsupported body accepted" : "wrong content decoded", id + ": " + std::to_string(o->body.size()) + " bytes instead of " + std::to_string(e.plain.size()));
      }
      if (!ok && e.want == Sent::exact && o->has_body && e.plain.compare(0, o->body.size(), o->body) != 0) {
        violation("C01", "wrong content decoded", id + ": before the error");
      }
      if (o->value != "-") {
        violation("C01", "Content-Encoding left on a decoded body", id + ": " + o->value);
      }
    }
  };
  r.go();
}
Register r("codec", run_codec);
} // namespace
} // namespace sim
