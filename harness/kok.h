// Takes Kokkos objects (of the stand-in) through the library (C19).
#pragma once
#include <checkpoint/checkpoint.h>
#include <checkpoint/container/view_equality.h>
#include <Kokkos_UnorderedMap.hpp>
#include <Kokkos_StaticCrsGraph.hpp>
#include <KokkosSparse_CrsMatrix.hpp>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
#include "watch.h"
namespace kk {

struct Val { bool alloc = false; std::string label; std::vector<std::size_t> ext, str; std::vector<long> ops; };
struct Case { int id = 0; Val v, p; };
extern std::FILE* out;
extern std::string scratch;

// elements
inline long living = 0;
struct Cls {
  int a = -1; std::string b;
  Cls(int x = -1, std::string const& y = "") : a(x), b(y) { living++; }
  Cls(Cls const& o) : a(o.a), b(o.b) { living++; }
  Cls& operator=(Cls const&) = default;
  ~Cls() { living--; }
  template <typename S> void serialize(S& s) { s | a; s | b; }
  bool operator==(Cls const& o) const { return a == o.a && b == o.b; }
};
template <typename T> T elem(std::size_t n, int salt) {
  long x = long(n) + 1 + salt * 1000;
  if constexpr (std::is_same_v<T, std::string>) return std::string(n % 3 ? 3 : 40, char('a' + n % 26)) + std::to_string(x);
  else if constexpr (std::is_same_v<T, Cls>) return Cls{int(x), std::string(n % 20, 'c')};
  else if constexpr (std::is_same_v<T, std::vector<int>>) { std::vector<int> v(n % 4, 7); v.push_back(int(x)); return v; }
  else if constexpr (std::is_same_v<T, Kokkos::View<int*>>) return T("e", std::size_t(2));
  else if constexpr (std::is_floating_point_v<T>) return T(x) + T(0.25);
  else return T(x * 7);
}
inline std::string q(std::string const& s) { return "\"" + s + "\""; }
inline std::string hex(std::string const& s) { static char const* d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
template <typename T> std::enable_if_t<std::is_arithmetic_v<T>, std::string> text(T const& x) { char b[64]; if constexpr (std::is_floating_point_v<T>) { std::snprintf(b, sizeof b, "%.17Lg", (long double)x); return b; } else return std::to_string(x); }
inline std::string text(std::string const& s) { return s; }
inline std::string text(Cls const& c) { return std::to_string(c.a) + "/" + c.b; }
inline std::string text(std::vector<int> const& v) { std::string r = "["; for (int i : v) r += std::to_string(i) + ";"; return r + "]"; }
template <typename T> std::string text(Kokkos::complex<T> const& c) { return text(c.real()) + "+" + text(c.imag()) + "i"; }
inline std::string text(Kokkos::View<int*> const& v) { std::string r = hex(v.label()) + "[" + std::to_string(v.extent(0)) + ":"; for (std::size_t i = 0; i < v.extent(0); i++) r += std::to_string(v(i)) + ";"; return r; }

// dumps
struct Dump {
  std::string k = "tup", label; std::vector<std::size_t> ext, str; bool alloc = true; std::vector<std::string> el; std::vector<Dump> parts; std::size_t cap = 0;
  std::string json() const {
    auto ns = [](std::vector<std::size_t> const& v) { std::string r = "["; for (auto x : v) { if (r.size() > 1) r += ','; r += std::to_string(x > 1000000000 ? 1000000000 : x); } return r + "]"; };
    std::string r = "{\"k\":" + q(k) + ",\"label\":" + q(label) + ",\"ext\":" + ns(ext) + ",\"str\":" + ns(str) + ",\"alloc\":" + (alloc ? "true" : "false") + ",\"cap\":" + std::to_string(cap) + ",\"el\":[";
    for (std::size_t i = 0; i < el.size(); i++) r += (i ? "," : "") + q(el[i]);
    r += "],\"parts\":[";
    for (std::size_t i = 0; i < parts.size(); i++) r += (i ? "," : "") + parts[i].json();
    return r + "]}";
  }
};
template <typename F> void each(Kokkos::Standin::Map const& m, F f) {
  if (m.size() == 0) return;
  std::size_t idx[8] = {}, n = 0;
  for (;;) {
    f(m.at(idx, m.rank), n++);
    std::size_t d = m.rank;
    while (d > 0) { if (++idx[d - 1] < m.ext[d - 1]) break; idx[--d] = 0; }
    if (d == 0) return;
  }
}
template <typename V> Dump dumpView(V const& v) {
  Dump d; d.k = "view"; d.label = hex(v.label()); d.alloc = v.data() != nullptr;
  for (std::size_t i = 0; i < v.map_.rank; i++) { d.ext.push_back(v.map_.ext[i]); d.str.push_back(v.map_.str[i]); }
  Kokkos::Standin::Open open;
  if (d.alloc) each(v.map_, [&](std::size_t o, std::size_t) { d.el.push_back(text(v.data()[o])); });
  return d;
}
template <typename D, typename... P> Dump dump(Kokkos::View<D, P...> const& v) { return dumpView(v); }
template <typename D, typename... P> Dump dump(Kokkos::DynRankView<D, P...> const& v) { return dumpView(v); }
template <typename D, typename... P> Dump dump(Kokkos::Experimental::DynamicView<D, P...> const& v) {
  Dump d; d.k = "dyn"; d.label = hex(v.label()); d.ext = {v.size()}; d.cap = v.chunk_size();
  for (std::size_t i = 0; i < v.size(); i++) d.el.push_back(text(v(i)));
  return d;
}
template <typename K, typename V, typename... P> Dump dump(Kokkos::UnorderedMap<K, V, P...> const& m) {
  Dump d; d.k = "map"; d.cap = m.capacity();
  for (unsigned i = 0; i < m.capacity(); i++) if (m.valid_at(i)) { Dump e; e.label = text(m.key_at(i)); e.el = {text(m.value_at(m.find(m.key_at(i))))}; d.parts.push_back(e); }
  return d;
}
template <typename T> auto dump(T const& x) -> decltype(text(x), Dump()) { Dump d; d.el = {text(x)}; return d; }
template <typename A, typename B> Dump dump(Kokkos::pair<A, B> const& p) { Dump d; if constexpr (std::is_void_v<B>) d.parts = {dump(p.first)}; else d.parts = {dump(p.first), dump(p.second)}; return d; }
template <typename A> Dump dumpArray(A const& a) { Dump d; for (std::size_t i = 0; i < a.size(); i++) d.parts.push_back(dump(a[i])); return d; }
#if KOKKOS_VERSION_LESS(4, 4, 0)
template <typename T, std::size_t N, typename P> Dump dump(Kokkos::Array<T, N, P> const& a) { return dumpArray(a); }
#else
template <typename T, std::size_t N> Dump dump(Kokkos::Array<T, N> const& a) { return dumpArray(a); }
#endif
template <typename T, typename... P> Dump dump(Kokkos::StaticCrsGraph<T, P...> const& g) { Dump d; d.parts = {dump(g.entries), dump(g.row_map), dump(g.row_block_offsets)}; return d; }
template <typename T, typename... P> Dump dump(KokkosSparse::CrsMatrix<T, P...> const& m) { Dump d; d.el = {text(m.numCols())}; d.parts = {dump(m.graph), dump(m.values)}; return d; }
template <typename T> Dump dump(std::vector<T> const& v) { Dump d; d.cap = 0; for (auto& x : v) d.parts.push_back(dump(x)); return d; }
template <typename A, typename B> Dump dump(std::pair<A, B> const& p) { Dump d; d.parts = {dump(p.first), dump(p.second)}; return d; }
template <typename A, typename B> Dump dump(std::map<A, B> const& m) { Dump d; for (auto& x : m) d.parts.push_back(dump(x)); return d; }
template <typename T> Dump dump(std::optional<T> const& o) { Dump d; if (o) d.parts = {dump(*o)}; return d; }
template <typename T> Dump dump(std::unique_ptr<T> const& o) { Dump d; if (o) d.parts = {dump(*o)}; return d; }

struct Holder {
  Kokkos::View<int*> a; Kokkos::View<double**, Kokkos::LayoutLeft> b; std::string n; Kokkos::View<int const*> c;
  template <typename S> void serialize(S& s) { s | a | n; s | b | c; }
};
inline Dump dump(Holder const& h) { Dump d; d.el = {h.n}; d.parts = {dump(h.a), dump(h.b), dump(h.c)}; return d; }

inline Kokkos::View<int*> some(int s) { Kokkos::View<int*> v("some" + std::to_string(s), s + 2); for (int i = 0; i < s + 2; i++) v(i) = 10 * s + i; return v; }
inline Kokkos::View<double**, Kokkos::LayoutLeft> some2(int s) { Kokkos::View<double**, Kokkos::LayoutLeft> v("two", s + 1, 3); for (int i = 0; i < s + 1; i++) for (int j = 0; j < 3; j++) v(i, j) = i + 0.5 * j + s; return v; }
inline Kokkos::View<Kokkos::View<int*>*> nested(int s) { Kokkos::View<Kokkos::View<int*>*> v("nested", 3); v(0) = some(s); v(2) = some(s + 1); return v; }
inline Holder holder(int s) { Holder h; h.a = some(s); h.b = some2(s); h.n = "n" + std::to_string(s); if (s) h.c = some(1); return h; }
using Graph = Kokkos::StaticCrsGraph<int, Kokkos::DefaultExecutionSpace>;
using Matrix = KokkosSparse::CrsMatrix<double, int, Kokkos::DefaultExecutionSpace>;
inline Graph graph(int s, bool blocks) {
  Graph g = Kokkos::create_staticcrsgraph<Graph>("graph" + std::to_string(s), std::vector<std::vector<int>>{{1, s}, {}, {0, 2, 3}});
  if (blocks) { g.row_block_offsets = Graph::row_block_type("blocks", 2); g.row_block_offsets(0) = 0; g.row_block_offsets(1) = 3; }
  return g;
}
inline Matrix matrix(int s) {
  double v[] = {1.5, 2.5 + s, -3}; int rows[] = {0, 1, 1, 3}, cols[] = {s, 0, 4};
  return Matrix("matrix" + std::to_string(s), 3, 5 + s, 3, v, rows, cols);
}
// building
template <typename V> struct NonConst;
template <typename D, typename... P> struct NonConst<Kokkos::View<D, P...>> { using type = Kokkos::View<typename Kokkos::Standin::DT<D>::nonconst, P...>; };
template <typename D, typename... P> struct NonConst<Kokkos::DynRankView<D, P...>> { using type = Kokkos::DynRankView<std::remove_const_t<D>, P...>; };
template <typename V> void fill(V const& v, int salt) {
  using T = std::remove_const_t<typename V::value_type>;
  Kokkos::Standin::Open open;
  each(v.map_, [&](std::size_t o, std::size_t n) { const_cast<T&>(v.data()[o]) = elem<T>(n, salt); });
}
template <typename V> V buildView(Val const& c, int salt) {
  if (!c.alloc) return V{};
  using W = typename NonConst<V>::type; using T = typename W::non_const_value_type;
  W w;
  w.map_ = {};
  w.map_.rank = c.ext.size();
  for (std::size_t i = 0; i < c.ext.size(); i++) { w.map_.ext[i] = c.ext[i]; w.map_.str[i] = c.str[i]; }
  w.track_ = std::make_shared<Kokkos::Standin::Allocation<T>>(c.label, w.map_.span(), V::is_dev, true);
  w.data_ = w.track_->data;
  fill(w, salt);
  return V(w);
}
template <typename T> struct Build;
template <typename D, typename... P> struct Build<Kokkos::View<D, P...>> { static auto make(Val const& c, int s) { return buildView<Kokkos::View<D, P...>>(c, s); } };
template <typename D, typename... P> struct Build<Kokkos::DynRankView<D, P...>> { static auto make(Val const& c, int s) { return buildView<Kokkos::DynRankView<D, P...>>(c, s); } };
template <typename D, typename... P> struct Build<Kokkos::Experimental::DynamicView<D, P...>> {
  using V = Kokkos::Experimental::DynamicView<D, P...>;
  static V make(Val const& c, int salt) {
    V v(c.label, unsigned(c.str[0]), unsigned(c.ext[0] + 3 * c.str[0]));
    v.resize_serial(c.ext[0]);
    for (std::size_t i = 0; i < c.ext[0]; i++) v(i) = elem<typename V::value_type>(i, salt);
    return v;
  }
};
template <typename K, typename T, typename... P> struct Build<Kokkos::UnorderedMap<K, T, P...>> {
  using V = Kokkos::UnorderedMap<K, T, P...>;
  static V make(Val const& c, int salt) {
    V m(unsigned(c.ext[0]));
    for (long o : c.ops) if (o >= 0) m.insert(K(o), elem<T>(std::size_t(o), salt)); else { m.begin_erase(); m.erase(K(-1 - o)); m.end_erase(); }
    return m;
  }
};

// changing a restored object: everything it can reach
template <typename T> void spoil(T& x);
template <typename D, typename... P> void spoilIt(Kokkos::View<D, P...>& v) { if (v.data()) fill(v, 9); }
template <typename D, typename... P> void spoilIt(Kokkos::DynRankView<D, P...>& v) { if (v.data()) fill(v, 9); }
template <typename D, typename... P> void spoilIt(Kokkos::Experimental::DynamicView<D, P...>& v) { using T = typename Kokkos::Experimental::DynamicView<D, P...>::value_type; for (std::size_t i = 0; i < v.size(); i++) v(i) = elem<T>(i, 9); }
template <typename K, typename V, typename... P> void spoilIt(Kokkos::UnorderedMap<K, V, P...>& m) { m.insert(K(77), V()); m.clear(); }
template <typename T> void spoilIt(T&) {}
template <typename T> void spoil(T& x) { spoilIt(x); }

template <typename V> struct Kind { static constexpr bool view = false; };
template <typename D, typename... P> struct Kind<Kokkos::View<D, P...>> {
  using V = Kokkos::View<D, P...>; static constexpr bool view = true;
  static constexpr bool plain = !std::is_const_v<typename V::value_type> && !V::memory_traits::is_atomic, dynamic = V::DTT::dyn == V::Rank,
    strided = std::is_same_v<typename V::array_layout, Kokkos::LayoutStride>;
  static constexpr bool extents = plain && dynamic && !strided && V::Rank >= 1 && V::Rank <= 4, contents = plain;
  static constexpr bool equal = plain && dynamic && !V::is_dev && V::Rank >= 1 && V::Rank <= 3 &&
    (std::is_arithmetic_v<typename V::value_type> || std::is_same_v<typename V::value_type, std::string>);
};

inline void event(int id, char const* e, std::string const& rest) { std::fprintf(out, "%d {\"e\":\"%s\"%s}\n", id, e, rest.c_str()); }
inline std::string D(Dump const& d) { return ",\"d\":" + d.json(); }
template <typename T> std::unique_ptr<checkpoint::SerializedInfo> memory(T& t) { return checkpoint::serialize(t); }

template <typename T> void trip(int id, T& t, T& p) {
  std::string const file = scratch + "/k" + std::to_string(::getpid());
  event(id, "made", D(dump(t)));
  event(id, "size", ",\"n\":" + std::to_string(checkpoint::getSize(t)));
  auto r = checkpoint::serialize(t);
  event(id, "write", ",\"n\":" + std::to_string(r->getSize()));
  std::remove(file.c_str());
  checkpoint::serializeToFile(t, file);
  { std::ifstream f(file, std::ios::binary | std::ios::ate); event(id, "write", ",\"n\":" + std::to_string(long(f.tellg()))); }
  std::stringstream st;
  checkpoint::serializeToStream(t, st);
  event(id, "write", ",\"n\":" + std::to_string(st.str().size()));
  event(id, "kept", D(dump(t)));
  auto a = checkpoint::deserialize<T>(r->getBuffer());
  event(id, "read", D(dump(*a)));
  auto b = checkpoint::deserializeFromFile<T>(file);
  event(id, "read", D(dump(*b)));
  { std::stringstream s2(st.str()); auto c = checkpoint::deserializeFromStream<T>(s2); event(id, "read", D(dump(*c))); }
  event(id, "old", D(dump(p)));
  if (id % 3 == 0) checkpoint::deserializeInPlace<T>(r->getBuffer(), &p);
  else if (id % 3 == 1) checkpoint::deserializeInPlaceFromFile<T>(file, &p);
  else checkpoint::deserializeInPlaceFromStream<T>(st, &p);
  event(id, "into", D(dump(p)));
  { auto r2 = checkpoint::serialize(*a); auto c = checkpoint::deserialize<T>(r2->getBuffer()); event(id, "again", D(dump(*c))); }
  spoil(*a); spoil(*b); spoil(p);
  event(id, "apart", D(dump(t)));
  std::remove(file.c_str());
}

template <typename V> bool same(V const& a, V const& b) {
  std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf());
  bool r = checkpoint::ViewEquality<V>::compare(a, b);
  std::cout.rdbuf(old);
  return r;
}
template <typename T> void run(Case const& c) {
  T t = Build<T>::make(c.v, 0), p = Build<T>::make(c.p, 3);
  trip(c.id, t, p);
  if constexpr (Kind<T>::view) {
    using namespace checkpoint;
    auto through = [](auto f, auto g) {
      Sizer z; f(z); Packer k(z.getSize()); f(k); auto b = k.extractPackedBuffer(); Unpacker u(b->getBuffer()); g(u);
    };
    if constexpr (Kind<T>::extents) if (c.v.alloc) {
      T w = Build<T>::make(c.p, 4);
      through([&](auto& s) { serializeExtentOnly(s, t, "given"); }, [&](auto& s) { serializeExtentOnly(s, w, "given"); });
      event(c.id, "extent", ",\"label\":" + q(hex("given")) + D(dump(w)));
    }
    if constexpr (Kind<T>::contents) if (c.v.alloc) {
      Val x = c.v; x.label = "target";
      T w = Build<T>::make(x, 5), handle = w;
      auto before = dump(w);
      through([&](auto& s) { serializeContentsOnly(s, t); }, [&](auto& s) { serializeContentsOnly(s, w); });
      event(c.id, "contents", ",\"b\":" + before.json() + D(dump(handle)));
    }
    if constexpr (Kind<T>::equal) if (c.v.alloc) {
      std::string w;
      auto add = [&](T const& o) { w += std::string(w.empty() ? "" : ",") + "{\"r\":" + (same<T>(t, o) ? "true" : "false") + D(dump(o)) + "}"; };
      T copy = Build<T>::make(c.v, 0); add(copy);
      std::size_t n = t.size();
      if (n) for (std::size_t k : {std::size_t(0), n / 2, n - 1}) {
        T o = Build<T>::make(c.v, 0);
        each(o.map_, [&](std::size_t at, std::size_t i) { if (i == k) o.data()[at] = elem<typename T::value_type>(i, 2); });
        add(o);
      }
      Val x = c.v; x.label += "x"; add(Build<T>::make(x, 0));
      for (std::size_t i = 0; i < c.v.ext.size(); i++) { x = c.v; x.ext[i]++; add(Build<T>::make(x, 0)); }
      event(c.id, "equal", ",\"with\":[" + w + "]");
    }
  }
}
using Fn = void (*)(Case const&);
}
