#!/usr/bin/env python3
"""mkoverlay.py OUT: generates OUT/boost/..., a three-file overlay that gives the
installed Boost 1.83 the few interfaces fitoria needs from Boost >= 1.85:

  * asio::async_read() overloads taking a completion condition only accept
    something callable as one (asio 1.85 `is_completion_condition`), so the
    unqualified 4-argument call finds Beast's http::async_read;
  * beast::http::status gains early_hints (103) and too_early (425);
  * boost::pfr::get_name<I, T>() (pfr 2.2).

Everything else is the installed header, unchanged.  If the installed Boost
already has them (>= 1.85) the overlay is left empty.
"""
import os, re, sys

INC = "/usr/include"
out = sys.argv[1]


def read(p):
    with open(os.path.join(INC, p), encoding="utf-8") as f:
        return f.read()


def put(p, s):
    p = os.path.join(out, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    try:
        with open(p, encoding="utf-8") as f:
            if f.read() == s:
                return
    except OSError:
        pass
    with open(p, "w", encoding="utf-8") as f:
        f.write(s)


ver = int(re.search(r"#define BOOST_VERSION (\d+)", read("boost/version.hpp")).group(1))
os.makedirs(out, exist_ok=True)
if ver >= 108500:
    sys.exit(0)

CC = """
#ifndef FITORIA_SIM_COMPAT_IS_CC
#define FITORIA_SIM_COMPAT_IS_CC
#include <type_traits>
#include <boost/system/error_code.hpp>
namespace boost { namespace asio { namespace fitoria_sim_compat {
template <typename T>
struct is_cc : std::bool_constant<
  std::is_invocable_r<std::size_t, std::decay_t<T>&, boost::system::error_code, std::size_t>::value> {};
}}}
#endif
"""


def patch_read(s):
    """every async_read() that takes a CompletionCondition and a ReadToken"""
    n = 0
    parts = re.split(r"(?=\basync_read\(AsyncReadStream& s,)", s)
    for i, part in enumerate(parts):
        if not part.startswith("async_read(AsyncReadStream& s,"):
            continue
        head = part[: part.index("BOOST_ASIO_INITFN_AUTO_RESULT_TYPE_SUFFIX")] if "BOOST_ASIO_INITFN_AUTO_RESULT_TYPE_SUFFIX" in part else part[:1200]
        if "CompletionCondition completion_condition" not in head or "constraint<" not in head:
            continue
        new = re.sub(
            r"(typename constraint<\s*)(is_mutable_buffer_sequence<|is_dynamic_buffer_v1<|is_dynamic_buffer_v2<)",
            r"\1fitoria_sim_compat::is_cc<CompletionCondition>::value && \2",
            head,
            count=1,
        )
        assert new != head
        n += 1
        parts[i] = new + part[len(head):]
    assert n == 3, n
    return "".join(parts)


r = patch_read(read("boost/asio/read.hpp"))
r = r.replace("#include <boost/asio/detail/push_options.hpp>", CC + "\n#include <boost/asio/detail/push_options.hpp>", 1)
put("boost/asio/read.hpp", r)
put("boost/asio/impl/read.hpp", patch_read(read("boost/asio/impl/read.hpp")))

s = read("boost/beast/http/status.hpp")
s = s.replace("    processing                          = 102,\n", "    processing                          = 102,\n    early_hints                         = 103,\n", 1)
s = s.replace("    failed_dependency                   = 424,\n", "    failed_dependency                   = 424,\n    too_early                           = 425,\n", 1)
assert "early_hints" in s and "too_early" in s
put("boost/beast/http/status.hpp", s)
s = read("boost/beast/http/impl/status.ipp")
s, a = re.subn(r"(    case status::processing:\n)(?!.*return)", r"    case status::early_hints:\n\1", s, count=1)
s, b = re.subn(r"(    case status::failed_dependency:\n)(?!.*return)", r"    case status::too_early:\n\1", s, count=1)
s, c = re.subn(r"(    case status::processing: +return )", r'    case status::early_hints: return "Early Hints";\n\1', s, count=1)
s, d = re.subn(r"(    case status::failed_dependency: +return )", r'    case status::too_early: return "Too Early";\n\1', s, count=1)
assert a and b and c and d, (a, b, c, d)
put("boost/beast/http/impl/status.ipp", s)

put("boost/pfr.hpp", """#pragma once
#include_next <boost/pfr.hpp>
#include <string_view>
#include <memory>
namespace boost { namespace pfr { namespace fitoria_sim_compat {
template <typename T> struct wrapper { const T value; };
template <typename T> extern const wrapper<T> fake;
template <typename T> struct ptr_wrap { T v; };
template <typename T> ptr_wrap(T) -> ptr_wrap<T>;
template <typename T> constexpr const T& fake_object() noexcept { return fake<T>.value; }
template <typename T, auto P> consteval std::string_view name_of() {
  std::string_view s = __PRETTY_FUNCTION__;
  // "... P = ptr_wrap<const X*>{(& fake<T>.wrapper<T>::value.T::field)}; ..."
  auto e = s.find(")}");
  s = s.substr(0, e);
  s = s.substr(s.find_last_of(":.") + 1);
  // clang: "... value.field}]"
  return s.substr(0, s.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"));
}
}
template <std::size_t I, class T> constexpr std::string_view get_name() noexcept {
  return fitoria_sim_compat::name_of<T, fitoria_sim_compat::ptr_wrap{
    std::addressof(detail::sequence_tuple::get<I>(detail::tie_as_tuple(fitoria_sim_compat::fake_object<T>())))}>();
}
}}
""")
