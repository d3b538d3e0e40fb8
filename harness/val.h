// Value terms: the projection between C++ objects and the value trees of spec/Values.tla.
// node = [t: tag, n: number, v: hex payload, k: children]
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>

namespace vt {

struct Node {
  std::string t;
  long long n = 0;
  std::string v;
  std::vector<Node> k;
  bool operator==(Node const& o) const { return t == o.t && n == o.n && v == o.v && k == o.k; }
};

// ---- text form used in scripts:  [t n v child child ...]   ("-" for an empty payload)
struct Parser {
  char const* p;
  void ws() { while (*p == ' ' || *p == '\n' || *p == '\t') ++p; }
  std::string word() {
    ws(); char const* b = p;
    while (*p && *p != ' ' && *p != '\n' && *p != '[' && *p != ']') ++p;
    return std::string(b, p);
  }
  Node node() {
    ws();
    if (*p != '[') { fprintf(stderr, "harness: bad value text at: %.40s\n", p); exit(97); }
    ++p;
    Node r;
    r.t = word(); r.n = atoll(word().c_str()); r.v = word();
    if (r.v == "-") r.v.clear();
    for (ws(); *p == '['; ws()) r.k.push_back(node());
    if (*p != ']') { fprintf(stderr, "harness: bad value text at: %.40s\n", p); exit(97); }
    ++p;
    return r;
  }
};
inline Node parse(std::string const& s) { Parser p{s.c_str()}; return p.node(); }

inline std::string hex(void const* ptr, std::size_t n) {
  static char const* d = "0123456789abcdef";
  auto b = static_cast<unsigned char const*>(ptr);
  std::string r; r.reserve(2 * n);
  for (std::size_t i = 0; i < n; i++) { r += d[b[i] >> 4]; r += d[b[i] & 15]; }
  return r;
}
inline std::string unhex(std::string const& s) {
  auto h = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  std::string r; r.reserve(s.size() / 2);
  for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += char(h(s[i]) * 16 + h(s[i + 1]));
  return r;
}

// canonical text: bags sorted, reserved capacity dropped
inline void canon(Node const& x, std::string& out) {
  out += '['; out += x.t; out += ' ';
  out += (x.t == "vec") ? std::string("0") : std::to_string(x.n);
  out += ' '; out += x.v.empty() ? std::string("-") : x.v;
  if (x.t == "bag") {
    std::vector<std::string> s(x.k.size());
    for (std::size_t i = 0; i < s.size(); i++) canon(x.k[i], s[i]);
    std::sort(s.begin(), s.end());
    for (auto& e : s) { out += ' '; out += e; }
  } else {
    for (auto& e : x.k) { out += ' '; canon(e, out); }
  }
  out += ']';
}
inline std::string canon(Node const& x) { std::string r; canon(x, r); return r; }
inline std::string fnv(void const* ptr, std::size_t n) {
  std::uint64_t a = 0xcbf29ce484222325ull, b = 0x9ae16a3b2f90404full;
  auto p = static_cast<unsigned char const*>(ptr);
  for (std::size_t i = 0; i < n; i++) {
    a = (a ^ p[i]) * 0x100000001b3ull;
    b = (b ^ p[i]) * 0x9E3779B97F4A7C15ull; b ^= b >> 29;
  }
  char buf[40]; snprintf(buf, sizeof buf, "%016llx%016llx", (unsigned long long)a, (unsigned long long)b);
  return buf;
}
inline std::size_t count(Node const& x) {
  std::size_t c = 1 + x.v.size() / 64;
  for (auto& e : x.k) c += count(e);
  return c;
}
#ifdef VT_FULLCAP
static constexpr std::size_t big_limit = 5000;   // the footprint is a function of the value itself
#else
static constexpr std::size_t big_limit = 120;
#endif
inline long long reserved(Node const& x) {
  long long c = x.t == "vec" ? x.n : 0;
  for (auto& e : x.k) c += reserved(e);
  return c;
}
// a large value is represented by the digest of its canonical text, and a vector node that
// stands for the sum of what its vectors have reserved
inline Node abstract(Node x) {
  if (count(x) <= big_limit) return x;
  auto c = canon(x);
  Node r; r.t = "dig"; r.n = (long long)x.k.size(); r.v = fnv(c.data(), c.size());
  Node cap; cap.t = "vec"; cap.n = reserved(x); r.k.push_back(cap);
  return r;
}
inline void json(Node const& x, std::string& out) {
  out += "{\"t\":\""; out += x.t; out += "\",\"n\":"; out += std::to_string(x.n);
  out += ",\"v\":\""; out += x.v; out += "\",\"k\":[";
  for (std::size_t i = 0; i < x.k.size(); i++) { if (i) out += ','; json(x.k[i], out); }
  out += "]}";
}
inline std::string json(Node const& x) { std::string r; json(x, r); return r; }

} // namespace vt
