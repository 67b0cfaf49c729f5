// Files served with static_file and stored from request bodies.
#include "app_run.hpp"
#include <limits>
#include <optional>
#include <set>

namespace sim {
AppWorld app_world;
AppConfig app_config;
AppFactory app_factory;
HttpWorld http_world;
HttpFactory http_factory;

namespace {
// what a name stood for during some time
struct Era {
  std::string content;
  ns_t mtime = 0;                   // realtime
  ns_t from = 0, to = std::numeric_limits<ns_t>::max();
  std::string etag;                 // of a request answered entirely within it
};
struct Known {                      // what a validator was served with
  std::string body;
  int era;                          // -1: the file was replaced meanwhile
};
struct File {
  std::string name, url, type, disposition;
  std::vector<Era> eras;            // the file may be replaced, atomically
  std::vector<std::size_t> sizes;   // or cut and extended in place: always a prefix of the content
  bool changing = false;            // ... the latter
  std::size_t next = 1;             // era
  std::vector<std::string> etags;   // seen, the last one at the end
  std::map<std::string, Known> known;
  const std::string& content() const { return eras[0].content; }
  // those a request made then may have met
  std::vector<int> during(ns_t a, ns_t b) const
  {
    std::vector<int> v;
    for (std::size_t i = 0; i < eras.size(); ++i) {
      if (eras[i].from <= b && eras[i].to >= a && eras[i].from < eras[i].to) {
        v.push_back(static_cast<int>(i));
      }
    }
    return v;
  }
};
struct Upload {
  std::string path, body;
  bool cut, over;
};
struct FilesRun {
  std::vector<File> files;
  std::map<std::string, Upload> uploads;                              // by rid
  std::map<std::string, std::string> stored;                          // path -> rid of the last upload meant for it
  std::set<std::string> unanswered, contested;                        // paths whose last upload got no answer; ... and were written to again
};
FilesRun* g;

unsigned errors_of(const std::string& name)
{
  auto it = file_errors.find("/simfs/" + name);
  return it == file_errors.end() ? 0 : it->second;
}

struct Ask {
  enum { none, bytes, other_unit, broken } kind = none;
  bool suffix = false, open_end = false, multi = false;
  std::uint64_t a = 0, b = 0; // suffix: b bytes
  std::string text;
};

std::uint64_t edge(const std::string& st, std::uint64_t size)
{
  switch (pick(st, 10)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return size ? size - 1 : 0;
  case 3: return size;
  case 4: return size + 1;
  case 5: return size + 1 + pick(st, 100000);
  case 6: {
    static const std::uint64_t big[] = { 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull, 4294967296ull };
    return big[pick(st, 4)];
  }
  default: return size ? pick(st, static_cast<std::uint32_t>(size)) : 0;
  }
}

Ask make_range(const std::string& st, std::uint64_t size)
{
  Ask r;
  auto piece = [&](Ask& x) {
    switch (pick(st, 4)) {
    case 0:
      x.open_end = true;
      x.a = edge(st, size);
      return std::to_string(x.a) + "-";
    default:
      x.a = edge(st, size);
      x.b = edge(st, size);
      if (x.b < x.a) {
        std::swap(x.a, x.b);
      }
      return std::to_string(x.a) + "-" + std::to_string(x.b);
    }
  };
  r.kind = Ask::bytes;
  switch (pick(st, 8)) {
  case 0:
    r.suffix = true;
    r.b = edge(st, size);
    r.text = "bytes=-" + std::to_string(r.b);
    break;
  case 1: {
    r.multi = true;
    r.text = "bytes=" + piece(r);
    Ask other;
    auto n = range(st, 1, 3);
    for (std::uint32_t i = 0; i < n; ++i) {
      r.text += ", " + piece(other);
    }
    break;
  }
  case 2:
    r.kind = Ask::other_unit;
    r.text = "lines=0-1";
    break;
  case 3: {
    static const char* const bad[] = { "bytes", "bytes=", "bytes=a-b", "bytes=5-2", "bytes=1", "bytes=-", "bytes=--5", "bytes=0-1,", "=0-1", "bytes=18446744073709551616-", "bytes=0-99999999999999999999999", "bytes=0-1=2", "bytes=0-1=", "bytes==0-1", "bytes=0-1-2", "bytes=0x0-1", "bytes=+0-1", "bytes=-+1", "bytes=1.0-2", "bytes 0-1", "bytes=0--1", "=-1", "bytes=-1=" };
    r.kind = Ask::broken;
    r.text = bad[pick(st, sizeof bad / sizeof *bad)];
    break;
  }
  default: r.text = std::string(pick(st, 6) ? "bytes=" : "Bytes=") + piece(r);
  }
  return r;
}

struct Asked {
  Ask range;
  int cond = 0;       // 0 none 1 exact 2 weak 3 in a list 4 malformed 5 any 6 others
  std::string etag;   // 1 2 3
  bool raw = false;
};
using Complaint = std::pair<std::string, std::string>;

std::string imf_date(ns_t t)
{
  time_t s = static_cast<time_t>(t / sec);
  tm m {};
  gmtime_r(&s, &m);
  char b[64];
  strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S GMT", &m);
  return b;
}

// the first thing wrong with the answer if the file was what `e` says
std::optional<Complaint> judge_era(const Step& s, const File& f, int ei, bool only, const Asked& q)
{
  auto& p = s.resp;
  auto& e = f.eras[static_cast<std::size_t>(ei)];
  auto& r = q.range;
  bool head = s.rq.method == "HEAD";
  auto bad = [](const char* cat, const std::string& m) { return Complaint { cat, m }; };
  auto etag = p.get("etag");
  if (p.status == 200 || p.status == 206 || p.status == 304) {
    if (!etag || etag->empty() || !p.get("last-modified")) {
      return bad("validators missing", std::to_string(p.status));
    }
    if (!f.changing && p.get("last-modified") != imf_date(e.mtime)) {
      return bad("wrong modification time", *p.get("last-modified") + " instead of " + imf_date(e.mtime));
    }
    auto k = f.known.find(*etag);
    if (!f.changing && k != f.known.end() && k->second.body != e.content) {
      return bad("validator shared by different contents", *etag);
    }
    if (!f.changing && only && !e.etag.empty() && *etag != e.etag) {
      return bad("validator not stable", *etag + " and " + e.etag);
    }
  }
  // conditional
  bool named = q.cond >= 1 && q.cond <= 3;
  auto k = named ? f.known.find(q.etag) : f.known.end();
  if (p.status == 304) {
    if ((!named && q.cond != 5) || q.raw) {
      return bad("not modified although nothing matched", "");
    }
    if (!f.changing && k != f.known.end() && k->second.body != e.content) {
      return bad("not modified although the file is another", q.etag);
    }
    if (named && *etag != q.etag) {
      return bad("304 with another validator", *etag + " for " + q.etag);
    }
    if (!p.body.empty()) {
      return bad("304 with a body", show(p.body));
    }
    return {};
  }
  bool match = q.cond == 5 || (named && only && k != f.known.end() && k->second.era == ei);
  if (match && !q.raw && !f.changing) {
    return bad("matching validator not honoured", std::to_string(p.status));
  }
  if (p.status == 400) {
    if (q.cond != 4 || q.raw) {
      return bad("refused a proper request", "400");
    }
    return {};
  }
  if (q.cond == 4 && !q.raw) {
    return bad("malformed If-None-Match accepted", std::to_string(p.status));
  }
  // range
  bool ranged = r.kind != Ask::none && !q.raw;
  std::size_t size = e.content.size();
  std::uint64_t a = r.suffix ? (r.b >= size ? 0 : size - r.b) : r.a;
  std::uint64_t b = r.suffix || r.open_end ? (size ? size - 1 : 0) : std::min<std::uint64_t>(r.b, size ? size - 1 : 0);
  bool satisfiable = size > 0 && (r.suffix ? r.b > 0 : r.a < size);
  bool inside = satisfiable && (r.suffix || r.open_end || r.b < size);
  if (p.status == 416) {
    if (!ranged) {
      return bad("range error without a range", "416");
    }
    if (!f.changing && r.kind == Ask::bytes && inside) {
      return bad("satisfiable range refused", r.text + " of " + std::to_string(size));
    }
    if (!f.changing && p.get("content-range") != "bytes */" + std::to_string(size)) {
      return bad("416 without the size", p.get("content-range").value_or("-"));
    }
    return {};
  }
  if (p.get("content-type") != f.type && !(s.rq.target.find("ct=json") != std::string::npos && p.get("content-type") == "application/json")) {
    return bad("wrong content type", p.get("content-type").value_or("-") + " for " + f.name);
  }
  if (p.get("content-disposition") != f.disposition) {
    return bad("wrong content disposition", p.get("content-disposition").value_or("-") + " for " + f.name);
  }
  if (p.status == 206) {
    if (!ranged || r.kind != Ask::bytes) {
      return bad("partial content nobody asked for", r.text);
    }
    if (!f.changing && !satisfiable) {
      return bad("unsatisfiable range served", r.text + " of " + std::to_string(size) + ": " + std::to_string(p.body.size()) + " bytes, Content-Range " + p.get("content-range").value_or("-"));
    }
    unsigned long long ca, cb, ct;
    if (sscanf(p.get("content-range").value_or("").c_str(), "bytes %llu-%llu/%llu", &ca, &cb, &ct) != 3 || ca > cb) {
      return bad("malformed Content-Range", p.get("content-range").value_or("-"));
    }
    if (!f.changing && (ca != a || cb != b)) {
      return bad("another range served", r.text + " of " + std::to_string(size) + " answered with " + *p.get("content-range"));
    }
    if (!head) {
      if (p.body.size() != cb - ca + 1) {
        return bad("truncated range looks complete", *p.get("content-range") + " with " + std::to_string(p.body.size()) + " bytes");
      }
      if (cb >= e.content.size() || e.content.compare(ca, cb - ca + 1, p.body) != 0) {
        return bad("wrong bytes served", *p.get("content-range"));
      }
    }
    if (ct != size && !f.changing) {
      return bad(ct == cb - ca + 1 ? "length of the range as total in Content-Range" : "wrong total in Content-Range", r.text + " of " + std::to_string(size) + " answered with " + *p.get("content-range"));
    }
    return {};
  }
  if (p.status != 200) {
    return bad("unexpected status", std::to_string(p.status));
  }
  if (ranged && r.kind == Ask::bytes && size > 0 && !satisfiable && !f.changing) {
    return bad("unsatisfiable range served", r.text + " answered with the whole file");
  }
  if ((p.get("accept-ranges") == "bytes") == q.raw) {
    return bad("range support misreported", p.get("accept-ranges").value_or("-"));
  }
  if (head) {
    return {};
  }
  if (!f.changing ? p.body != e.content : std::find(f.sizes.begin(), f.sizes.end(), p.body.size()) == f.sizes.end() || e.content.compare(0, p.body.size(), p.body) != 0) {
    return bad(p.body.size() < size && e.content.compare(0, p.body.size(), p.body) == 0 ? "truncated file looks complete" : "wrong bytes served", std::to_string(p.body.size()) + " of " + std::to_string(size) + " bytes");
  }
  return {};
}

void judge_file(const Step& s, const std::string& id, File& f, const Asked& q)
{
  auto& p = s.resp;
  auto io = errors_of("d/" + f.name) > 0;
  auto bad = [&](const std::string& cat, const std::string& m) { violation("F01", cat, id + ": " + m); };
  auto rid = p.get("x-r");
  if (s.rq.target.rfind("/file/", 0) == 0 && rid != s.rid) {
    bad("another request's file", "X-R " + rid.value_or("-"));
    return;
  }
  if (p.status == 404) {
    if (!io && !f.eras.empty()) {
      bad("existing file not found", "404");
    } else if (s.rq.method != "HEAD" && p.body != "open failed") {
      bad("file leaks into an error response", show(p.body));
    }
    return;
  }
  if (f.eras.empty()) {
    bad("missing file answered", std::to_string(p.status));
    return;
  }
  auto c = f.during(s.t_sent, s.t_done);
  if (c.size() > 1) {
    count("files_replaced_under_request");
  }
  std::optional<Complaint> first;
  for (auto i : c) {
    auto w = judge_era(s, f, i, c.size() == 1, q);
    if (!w) {
      return;
    }
    // what is listed as known must not hide behind another era's complaint
    if (!first || first->first != "length of the range as total in Content-Range") {
      first = w;
    }
  }
  if (first) {
    bad(first->first, first->second);
  }
}

Step make_file(const std::string& st, const std::string& rid)
{
  Step s;
  s.rid = rid;
  s.props = "F01";
  auto fi = pick(st, static_cast<std::uint32_t>(g->files.size() + 1));
  static File missing;
  missing = File {};
  missing.name = missing.url = "nothere";
  auto* f = fi < g->files.size() ? &g->files[fi] : &missing;
  bool sfile = pick(st, 5) == 4;
  bool head = !sfile && pick(st, 6) == 5;
  Asked q;
  q.raw = !sfile && pick(st, 6) == 5;
  s.rq.method = head ? "HEAD" : "GET";
  s.rq.target = (sfile ? "/sfile/" : "/file/") + f->url + "?r=" + rid + (q.raw ? "&m=open" : "") + (!sfile && pick(st, 8) == 7 ? "&ct=json" : "");
  s.rq.headers = { { "Host", "x" } };
  if (pick(st, 2)) {
    q.range = make_range(st, f->eras.empty() ? 0 : f->eras[pick(st, static_cast<std::uint32_t>(f->eras.size()))].content.size());
    s.rq.headers.emplace_back(pick(st, 8) ? "Range" : "range", q.range.text);
  }
  q.cond = pick(st, 3) == 2 ? 1 + static_cast<int>(pick(st, 6)) : 0;
  s.what = s.rq.method + " " + f->name + " " + q.range.text + (q.cond ? " cond " + std::to_string(q.cond) : "") + (q.raw ? " raw" : "");
  auto box = std::make_shared<Asked>(q);
  auto older = pick(st, 4) == 3 ? pick(st, 64) : 0;
  auto form = pick(st, 64);
  s.prepare = [f, box, older, form](Step& x) {
    static const char* const malformed[] = { "abc", "\"open", "open\"", "W/x", "\"a\"b\"", "\"a b\"", "*, \"a\"", "\"a\" \"b\"", "w/\"a\"", "\"a\", b" };
    static const char* const others[] = { "\"other\", W/\"x-0000000000000000\"", "\"!\"", "\"\"", "W/\"\"", "\"a\",\"b\" , W/\"c\"", "\"#$%&'()*+-./:;<=>?@[]^_`{|}~\"", "\"a,b\"", "\",\", \"*\"", "\"caf\xc3\xa9\"", "\"\xff\"" };
    if (box->cond >= 1 && box->cond <= 3) {
      if (f->etags.empty()) {
        box->cond = 6;
      } else {
        box->etag = f->etags[f->etags.size() - 1 - older % f->etags.size()];
      }
    }
    auto& e = box->etag;
    std::string other = others[form % std::size(others)];
    std::string v;
    switch (box->cond) {
    case 1: v = e; break;
    case 2: v = "W/" + e; break;
    case 3: v = form & 1 ? other + ", " + e : form & 2 ? e + " , " + other : form & 4 ? other + "," + "W/" + e + "," + other : e + "," + e; break;
    case 4: v = malformed[form % std::size(malformed)]; break;
    case 5: v = "*"; break;
    case 6: v = other; break;
    default: return;
    }
    x.rq.headers.emplace_back("If-None-Match", v);
  };
  if (pick(st, 20) == 19) {
    s.cut = static_cast<Step::Cut>(1 + pick(st, 3));
    s.cut_at = 1 + pick(st, 80);
  }
  s.on_done = [f](const Step& x) {
    auto e = x.resp.get("etag").value_or("");
    if (x.resp.status != 200 || f->changing || f->eras.empty() || e.empty()) {
      return;
    }
    auto c = f->during(x.t_sent, x.t_done);
    auto only = c.size() == 1 ? c[0] : -1;
    f->etags.push_back(e);
    if (only >= 0 && f->eras[static_cast<std::size_t>(only)].etag.empty()) {
      f->eras[static_cast<std::size_t>(only)].etag = e;
    }
    if (x.rq.method == "GET") {
      auto [it, fresh] = f->known.emplace(e, Known { x.resp.body, only });
      if (!fresh && it->second.body != x.resp.body) {
        violation("F01", "validator shared by different contents", x.what + ": " + e);
      }
    }
  };
  auto name = f->name;
  s.judge = [f, box](const Step& x, const std::string& id) { judge_file(x, id, *f, *box); };
  // reading may fail: then the response must be incomplete, and what came is right
  s.on_failed = [f](const Step& x, const std::string& id) {
    auto& p = x.resp;
    if (p.head_complete && p.status == 200) {
      bool right = false;
      for (auto i : f->during(x.t_sent, x.t_done)) {
        right |= f->eras[static_cast<std::size_t>(i)].content.compare(0, p.body.size(), p.body) == 0;
      }
      if (!right) {
        violation("F01", "wrong bytes served", id + ": before it broke off");
      }
    }
  };
  s.excused = [f, name] { return f->changing || errors_of("d/" + name) > 0; };
  return s;
}

Step make_upload(const std::string& st, const std::string& rid)
{
  Step s;
  s.rid = rid;
  s.props = "F02";
  static const std::size_t sizes[] = { 0, 1, 100, 4096, 65535, 65536, 65537, 131072, 300000 };
  auto n = pick(st, 3) ? sizes[pick(st, 9)] : pick(st, 200000);
  auto name = st.substr(st.find('/') + 1) + "-" + std::to_string(pick(st, 3)) + ".up";
  s.rq.method = "POST";
  s.rq.target = "/up/" + name + "?r=" + rid;
  s.rq.headers = { { "Host", "x" } };
  s.rq.body = blob(hash_bytes(rid), n);
  s.rq.framing = pick(st, 2) ? http::Request::length : http::Request::chunked;
  auto k = range(st, 1, 4);
  for (std::uint32_t i = 0; i < k; ++i) {
    s.rq.chunk_sizes.push_back(pick(st, 2) ? range(st, 1, 200) * 97 : range(st, 20000, 90000));
  }
  bool over = static_cast<std::int64_t>(n) > app_config.body_limit;
  s.what = "upload " + name + " " + std::to_string(n) + " bytes" + (over ? " (over the limit)" : "");
  if (pick(st, 8) == 7) {
    s.cut = static_cast<Step::Cut>(1 + pick(st, 3));
    s.cut_at = 1 + pick(st, static_cast<std::uint32_t>(s.rq.wire().size()));
    s.what += " cut";
  }
  auto path = "/simfs/u/" + name;
  g->uploads[rid] = { path, s.rq.body, s.cut != Step::none, over };
  s.unread = over;
  s.drop = over ? Step::may : Step::never;
  s.prepare = [path, rid](Step&) {
    // one that was given up may still be writing to the same file
    if (g->unanswered.count(path)) {
      g->contested.insert(path);
    }
    g->unanswered.insert(path);
    g->stored[path] = rid;
  };
  auto body = s.rq.body;
  // looked at as soon as it is answered: the next upload may replace it
  s.on_done = [path, body, over, name](const Step& x) {
    g->unanswered.erase(path);
    if (x.resp.status == 201) {
      auto it = fs().find(path);
      if (g->contested.count(path)) {
        count("uploads_contested");
      } else if (it == fs().end() || it->second->data != body) {
        violation("F02", "stored file differs", x.what + ": " + std::to_string(it == fs().end() ? 0 : it->second->data.size()) + " bytes stored and reported as success");
      }
      if (x.resp.body != "stored " + std::to_string(body.size())) {
        violation("F02", "wrong count reported", x.what + ": " + show(x.resp.body));
      }
      if (x.cut != Step::none || over) {
        violation("F02", "incomplete upload accepted", x.what);
      }
    }
  };
  s.judge = [over, name](const Step& x, const std::string& id) {
    if (x.resp.status == 500) {
      if (!over && x.cut == Step::none && !errors_of("u/" + name)) {
        violation("F02", "upload refused", id + ": " + show(x.resp.body) + " although nothing failed");
      }
    } else if (x.resp.status != 201 && !over && x.cut == Step::none) {
      violation("F02", "unexpected status", id + ": " + std::to_string(x.resp.status));
    }
  };
  s.excused = [name] { return errors_of("u/" + name) > 0; };
  return s;
}

void run_files()
{
  FilesRun run;
  g = &run;
  AppRun::profile_net_and_files(true);
  app_config.body_limit = pick("cfg", 3) == 2 ? 100000 : 8 * 1024 * 1024;
  struct Kind {
    const char *name, *url, *type;
    bool inl;
  };
  static const Kind kinds[] = {
    { "a.txt", "a.txt", "text/plain", true },
    { "b.json", "b.json", "application/json", true },
    { "c.bin", "c.bin", "application/octet-stream", false },
    { "noext", "noext", "application/octet-stream", false },
    { "sub/p.png", "sub/p.png", "image/png", true },
    { "sp ace.html", "sp%20ace.html", "text/html", true },
    { "UP.JPG", "UP.JPG", "image/jpeg", true },
    { "j.js", "j.js", "application/javascript", true },
    { "w.wasm", "w.wasm", "application/wasm", true },
    { "f.swf", "f.swf", "application/x-shockwave-flash", false },
    { "x.xml", "x.xml", "application/xml", false },
    { "v.flv", "v.flv", "video/x-flv", true },
    { "two.txt.bin", "two.txt.bin", "application/octet-stream", false },
    { "s.css", "s.css", "text/css", true },
    { "v.svg", "v.svg", "image/svg+xml", true },
    { "deep/er/t.tiff", "deep/er/t.tiff", "image/tiff", true },
    { "i.Gif", "i.Gif", "image/gif", true },
    { "b.bmp", "b.bmp", "image/bmp", true },
  };
  static const std::size_t sizes[] = { 0, 1, 100, 4096, 65535, 65536, 65537, 131072 };
  auto any_size = [] { return pick("cfg", 2) ? sizes[pick("cfg", 8)] : pick("cfg", 250000); };
  auto n = range("cfg", 1, 6);
  auto at = pick("cfg", static_cast<std::uint32_t>(std::size(kinds)));
  auto put = [](const std::string& name, const Era& e) {
    auto ino = std::make_shared<Inode>();
    ino->data = ino->durable = e.content;
    ino->mtime = e.mtime;
    fs()["/simfs/d/" + name] = ino;
  };
  for (std::uint32_t i = 0; i < n; ++i) {
    File f;
    auto& m = kinds[(at + i) % std::size(kinds)];
    f.name = m.name;
    f.url = m.url;
    f.type = m.type;
    f.disposition = m.inl ? "inline" : "attachment; filename=\"" + f.name.substr(f.name.rfind('/') + 1) + "\"";
    Era e;
    e.content = blob(pick("cfg", 1000), any_size());
    e.mtime = realtime() - range("cfg", 1, 100000) * sec;
    f.sizes = { e.content.size() };
    put(f.name, e);
    f.eras.push_back(std::move(e));
    run.files.push_back(std::move(f));
  }
  // one file is cut short or grows back while it is being served
  if (pick("cfg", 4) == 3) {
    auto& f = run.files[pick("cfg", n)];
    f.changing = true;
    auto times = range("cfg", 1, 4);
    for (std::uint32_t i = 0; i < times; ++i) {
      auto to = pick("cfg", 3) == 0 ? f.content().size() : pick("cfg", static_cast<std::uint32_t>(f.content().size()) + 1);
      auto* fp = &f;
      f.sizes.push_back(to);
      after(range("cfg", 1, 200) * (pick("cfg", 2) ? ms : 100 * us), [fp, to] {
        fault("file_changed_while_served");
        auto& ino = fs()["/simfs/d/" + fp->name];
        ino->data = fp->content().substr(0, to);
        ino->mtime = realtime();
      });
    }
  }
  // others are replaced by new versions, which may look alike: the same
  // length, or modified in the same second (not both: that is more than a
  // validator made of the two can tell)
  std::function<void(File*, std::size_t)> replace = [&](File* f, std::size_t i) {
    auto& old = f->eras[i - 1];
    auto& e = f->eras[i];
    if (i != f->next) {
      return; // done already
    }
    ++f->next;
    fault("file_replaced");
    old.to = now();
    e.from = now();
    put(f->name, e);
    trace("%s replaced: %zu bytes, %s", f->name.c_str(), e.content.size(), imf_date(e.mtime).c_str());
    if (i + 1 < f->eras.size()) {
      after(range("cfg.replace", 1, 100) * ms, [&replace, f, i] { replace(f, i + 1); });
    }
  };
  for (auto& f : run.files) {
    if (f.changing || pick("cfg", 3)) {
      continue;
    }
    auto times = range("cfg", 1, 5);
    for (std::uint32_t i = 0; i < times; ++i) {
      Era e;
      auto& last = f.eras.back();
      auto size = pick("cfg", 2) ? last.content.size() : any_size();
      e.content = blob(1000 + pick("cfg", 100000), size);
      static const int steps[] = { 0, 1, -1, 2, 59, 60, 61, 3599, 3600, 3601, 86400, -60, -3600, 16, 256, 65536 };
      e.mtime = last.mtime + steps[pick("cfg", 16)] * sec;
      if (pick("cfg", 4) == 0) {
        e.mtime = e.mtime / sec * sec + range("cfg", 0, 999) * ms;
      }
      auto same = [&](const Era& x) { return x.content.size() == e.content.size() && x.content != e.content && x.mtime / sec == e.mtime / sec; };
      while (std::any_of(f.eras.begin(), f.eras.end(), same)) {
        e.mtime += sec;
      }
      e.from = e.to;
      f.eras.push_back(std::move(e));
    }
    auto* fp = &f;
    after(range("cfg", 1, 200) * ms, [&replace, fp] { replace(fp, 1); });
  }
  // the path may name another file as soon as it has been opened
  on_file_open = [&](const std::string& path) {
    for (auto& f : run.files) {
      if (path == "/simfs/d/" + f.name && f.next < f.eras.size() && f.eras[f.next - 1].from < now() && pick("cfg.swap", 3) == 0) {
        fault("file_replaced_at_open");
        replace(&f, f.next);
      }
    }
  };
  AppRun r;
  r.props = "F01 F02";
  r.make = [](const std::string& st, int c, int k) {
    auto rid = "f" + std::to_string(c) + "_" + std::to_string(k);
    return pick(st, 3) == 2 ? make_upload(st, rid) : make_file(st, rid);
  };
  r.finish = [&] {
    for (auto& o : app_world.obs) {
      if (o->route != "up") {
        continue;
      }
      auto it = run.uploads.find(o->rid);
      if (it == run.uploads.end()) {
        violation("F02", "request nobody sent", o->rid);
        continue;
      }
      auto& u = it->second;
      if (o->has_body && o->body_ok) {
        if (u.over || (u.cut && o->value != std::to_string(u.body.size()))) {
          violation("F02", "incomplete upload accepted", o->rid + ": " + o->value + " of " + std::to_string(u.body.size()) + " bytes taken as complete");
        }
        auto f = fs().find(u.path);
        if (run.stored[u.path] == o->rid && !run.contested.count(u.path) && (f == fs().end() || f->second->data != u.body)) {
          violation("F02", "stored file differs", o->rid + ": reported complete");
        }
      }
    }
    for (auto& f : run.files) {
      auto& d = fs()["/simfs/d/" + f.name]->data;
      auto met = f.during(now(), now());
      if (f.changing ? std::find(f.sizes.begin(), f.sizes.end(), d.size()) == f.sizes.end() || f.content().compare(0, d.size(), d) != 0 : met.empty() || f.eras[static_cast<std::size_t>(met.back())].content != d) {
        violation("F01", "served file was modified", f.name);
      }
    }
  };
  r.go();
  on_file_open = nullptr;
}
Register r("files", run_files);
} // namespace
} // namespace sim
