#!/usr/bin/env python3
"""Builds the simulator. Boost-side precompiled header, kernel and scenario
objects do not depend on /repo; the adapters in apps/ do and are keyed by the
content of /repo/include.  usage: build.py base | build.py BINARY..."""
import hashlib, os, subprocess, sys, concurrent.futures as cf, fcntl, json

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FITORIA_REPO", "/repo")
B = os.path.join(V, "build")
OVL = os.path.join(B, "overlay")
CXX = "clang++"
COMMON = ["-std=c++20", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls",
          "-Wno-deprecated-declarations"]
DEFS = ["-DFITORIA_HAS_FMT", "-DFITORIA_HAS_ZLIB", "-DFITORIA_HAS_BROTLI", "-DBOOST_ASIO_HAS_IO_URING", "-DBOOST_ENABLE_ASSERT_HANDLER"]
LIBS = ["-lfmt", "-lz", "-lbrotlidec", "-lbrotlienc", "-lbrotlicommon", "-lboost_json", "-lboost_url", "-lboost_regex", "-lssl", "-lcrypto", "-lpthread", "-ldl"]
PCH_TEXT = """#pragma once
#include <boost/asio.hpp>
#include <boost/beast.hpp>
#include <boost/asio/ssl.hpp>
#include <boost/asio/experimental/awaitable_operators.hpp>
#include <boost/asio/experimental/concurrent_channel.hpp>
#include <boost/beast/_experimental/test/stream.hpp>
#include <boost/json.hpp>
#include <boost/pfr.hpp>
#include <boost/regex.hpp>
#include <boost/url.hpp>
#include <brotli/decode.h>
#include <brotli/encode.h>
#include <zlib.h>
#include <fmt/chrono.h>
#include <fmt/color.h>
#include <fmt/format.h>
#include <algorithm>
#include <any>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <source_location>
#include <sstream>
#include <thread>
#include <typeindex>
#include <variant>
"""
# binary -> (objects independent of /repo, adapters, scenarios)
BINARIES = {
    "http": (["scen_http", "scen_ws"], ["http", "routes_ws"], ["http", "ws"]),
    "https": (["scen_http", "scen_ws"], ["tls", "routes_ws:tls"], ["https", "wss"]),
    "app": (["scen_files", "scen_codec", "scen_app"], ["app", "app_files", "app_codec", "app_mw", "app_lg", "app_x", "app_y", "app_routes"], ["files", "codec", "app"]),
    "log": (["scen_log"], ["log"], ["log"]),
    "bind": (["scen_bind"], ["binder"], ["bind"]),
}


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write("FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        raise SystemExit(2)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for n in sorted(fs):
                p = os.path.join(d, n)
                h.update(os.path.relpath(p, root).encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()[:20]


def compile_to(out, cmd):
    if os.path.exists(out):
        return
    tmp = "%s.%d.tmp" % (out, os.getpid())
    sh(cmd + ["-o", tmp])
    os.rename(tmp, out)


def overlay_and_pch():
    os.makedirs(B, exist_ok=True)
    stamp = os.path.join(OVL, ".done")
    okey = digest(read(os.path.join(V, "compat/mkoverlay.py")))
    if not os.path.exists(stamp) or read(stamp) != okey.encode():
        sh([sys.executable, os.path.join(V, "compat/mkoverlay.py"), OVL])
        with open(stamp, "w") as f:
            f.write(okey)
    key = digest(PCH_TEXT, " ".join(COMMON + DEFS), read(os.path.join(V, "compat/mkoverlay.py")))
    hdr = os.path.join(B, "pch-%s.hpp" % key)
    if not os.path.exists(hdr):
        with open(hdr, "w") as f:
            f.write(PCH_TEXT)
    pch = os.path.join(B, "pch-%s.pch" % key)
    compile_to(pch, [CXX, "-x", "c++-header", hdr, "-I", OVL] + COMMON + DEFS)
    return pch, key


def sim_hash():
    return tree_hash(os.path.join(V, "sim"))


def obj_base(name):
    src = os.path.join(V, "sim", name + ".cpp")
    key = digest(read(src), *[read(os.path.join(V, "sim", n)) for n in sorted(os.listdir(os.path.join(V, "sim"))) if n.endswith(".hpp")], " ".join(COMMON))
    out = os.path.join(B, "%s-%s.o" % (name, key))
    compile_to(out, [CXX, "-c", src, "-O1", "-Wall", "-Wextra"] + COMMON)
    return out


def obj_app(name, pch, pkey, rhash):
    # "name:tls" is the adapter compiled with TLS support
    stem, _, variant = name.partition(":")
    src = os.path.join(V, "apps", stem + ".cpp")
    extra = ["-DFITORIA_HAS_OPENSSL"] if variant == "tls" else []
    hdrs = [read(os.path.join(V, d, n)) for d in ("apps", "sim") for n in sorted(os.listdir(os.path.join(V, d))) if n.endswith(".hpp")]
    key = digest(read(src), rhash, pkey, variant, *hdrs)
    out = os.path.join(B, "app-%s-%s.o" % (stem, key))
    compile_to(out, [CXX, "-c", src, "-include-pch", pch, "-I", OVL, "-I", os.path.join(REPO, "include")] + COMMON + DEFS + extra)
    return out


def build(names, only_base=False):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(int(os.environ.get("BJ","8"))) as ex:
            base = sorted({o for n in names for o in BINARIES[n][0]} | {"kernel", "main"})
            fb = {b: ex.submit(obj_base, b) for b in base}
            pch, pkey = ex.submit(overlay_and_pch).result()
            res = {}
            fa = {}
            if not only_base:
                rhash = tree_hash(os.path.join(REPO, "include"))
                fa = {a: ex.submit(obj_app, a, pch, pkey, rhash) for a in sorted({a for n in names for a in BINARIES[n][1]})}
            objs = {k: v.result() for k, v in fb.items()}
            aobjs = {k: v.result() for k, v in fa.items()}
            if only_base:
                return res
            for n in names:
                os_ = [objs["kernel"], objs["main"]] + [objs[b] for b in BINARIES[n][0]] + [aobjs[a] for a in BINARIES[n][1]]
                out = os.path.join(B, "sim-%s-%s" % (n, digest(*os_)))
                compile_to(out, [CXX, "-fsanitize=address", "-rdynamic"] + os_ + LIBS)
                res[n] = out
            return res


if __name__ == "__main__":
    a = sys.argv[1:]
    if a == ["all"]:
        build(list(BINARIES))
    elif a == ["base"]:
        build(list(BINARIES), True)
    else:
        print(json.dumps(build(a or list(BINARIES))))
