// What the library says about, and does with, classes declared in every possible way (C20).
#pragma once
#include <checkpoint/checkpoint.h>
#include <cstdint>
#include <cstdio>
#include <new>
#include <string>
#include <type_traits>
#include <vector>
namespace tt {


struct Usr {};
struct Rct {};
struct Data { std::int32_t x = 1, y = 1, p = 1, q = 1; };
struct D : std::true_type {};
template <typename S> int pass(S& s) { return s.isSizing() ? 0 : s.isPacking() ? 1 : 2; }
extern std::vector<std::string> logs[4];
template <typename S> void call(S& s, char const* what) { logs[pass(s)].push_back(what); }

inline std::string list(std::vector<std::string> const& v) { std::string o = "["; for (auto& x : v) { if (o.size() > 1) o += ','; o += '"' + x + '"'; } return o + "]"; }
inline void wipe() { for (auto& l : logs) l.clear(); }
// 9: untouched by the read
inline std::string got(Data const& d, Data const& from, std::int32_t before) {
  std::vector<std::string> r;
  auto f = [&](std::int32_t a, std::int32_t b, char const* n) { if (a == b) r.push_back(n); else if (a != before) r.push_back(std::string("?") + n); };
  f(d.x, from.x, "x"); f(d.y, from.y, "y"); f(d.p, from.p, "p"); f(d.q, from.q, "q");
  return list(r);
}
template <typename T> void is(std::FILE* f, int id) {
  using R = checkpoint::SerializableTraits<T>;
  auto b = [](bool x) { return x ? "true" : "false"; };
  std::fprintf(f, "%d {\"e\":\"is\",\"is\":{\"copyable\":%s,\"function\":%s,\"traversable\":%s,\"creatable\":%s,\"serializable\":%s}}\n",
    id, b(R::is_bytecopyable), b(R::has_serialize_function), b(R::is_traversable), b(R::is_constructible), b(R::is_serializable));
}
template <typename T> void trip(std::FILE* f, int id) {
  T t{Usr{}};
  t.x = 1000 + id; t.y = 20000 + id; t.p = 300000 + id; t.q = 4000000 + id;
  wipe();
  auto r = checkpoint::serialize(t);
  std::fprintf(f, "%d {\"e\":\"size\",\"log\":%s}\n%d {\"e\":\"pack\",\"log\":%s}\n", id, list(logs[0]).c_str(), id, list(logs[1]).c_str());
  wipe();
  auto n = checkpoint::deserialize<T>(r->getBuffer());
  std::fprintf(f, "%d {\"e\":\"create\",\"log\":%s}\n%d {\"e\":\"unpack\",\"log\":%s}\n%d {\"e\":\"back\",\"got\":%s}\n", id, list(logs[3]).c_str(), id, list(logs[2]).c_str(), id, got(*n, t, 1).c_str());
  T o{Usr{}};
  o.x = o.y = o.p = o.q = 5;
  wipe();
  checkpoint::deserializeInPlace<T>(r->getBuffer(), &o);
  auto l = logs[3]; l.insert(l.end(), logs[2].begin(), logs[2].end());
  std::fprintf(f, "%d {\"e\":\"over\",\"log\":%s,\"got\":%s}\n", id, list(l).c_str(), got(o, t, 5).c_str());
}
}
