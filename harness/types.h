// The C++ side of the type universe of spec/Values.tla: user-defined types of every
// kind the library supports, and for every type T a Conv<T> with
//   make(Node) -> T       build the value a term denotes
//   proj(T const&) -> Node   the abstraction function
#pragma once
#include <checkpoint/checkpoint.h>

#include <array>
#include <chrono>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

#include "val.h"

namespace vt {

template <typename T, typename = void> struct Conv;
template <typename T> T make(Node const& n) { return Conv<T>::make(n); }
template <typename T> Node proj(T const& t) { return Conv<T>::proj(t); }

#ifdef VT_FULLCAP
static constexpr bool vt_full_cap = true;   // report every capacity (footprints)
#else
static constexpr bool vt_full_cap = false;
#endif

template <typename T, typename = void> struct has_vt_hash : std::false_type {};
template <typename T> struct has_vt_hash<T, std::void_t<decltype(std::declval<T const&>().vt_hash())>> : std::true_type {};
template <typename T, typename = void> struct is_vt_poly : std::false_type {};
template <typename T> struct is_vt_poly<T, std::void_t<typename T::vt_poly>> : std::true_type {};
// the object a term denotes, on the heap; polymorphic classes have a factory
template <typename T> T* newFrom(Node const& n) {
  if constexpr (is_vt_poly<T>::value) { auto r = dynamic_cast<T*>(T::factory(n)); if (!r) exit(97); return r; }
  else return new T(vt::make<T>(n));
}
// functors and allocators carry state, so that they have a size of their own
struct PHash {
  unsigned char mod = 7;
  template <typename T> std::size_t operator()(T const& x) const {
    if constexpr (has_vt_hash<T>::value) return x.vt_hash() % mod; else {
    auto c = canon(proj(x));
    std::size_t h = 5381;
    for (char ch : c) h = h * 33 + (unsigned char)ch;
    return h % mod;   // force collisions
    }
  }
};

struct Rev { short pad = 0; template <typename T> bool operator()(T const& a, T const& b) const { return b < a; } };

template <typename T> struct CountingAlloc {
  using value_type = T;
  long arena = 0;
  CountingAlloc() = default;
  template <typename U> CountingAlloc(CountingAlloc<U> const&) {}
  T* allocate(std::size_t n) { return std::allocator<T>{}.allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>{}.deallocate(p, n); }
  template <typename U> bool operator==(CountingAlloc<U> const&) const { return true; }
  template <typename U> bool operator!=(CountingAlloc<U> const&) const { return false; }
};
template <typename T> struct Del { long calls = 0; int pad = 0; void operator()(T* p) const { delete p; } };

// ------------------------------------------------------------------ leaves
enum E8 : std::int8_t {};
enum struct EU16 : std::uint16_t {};
enum struct E32 : std::int32_t {};
enum struct E64 : std::uint64_t {};
enum EPlain { EP_a, EP_b = 70000 };
enum Eb : bool {};
enum struct Ec : char {};
enum EL : long long {};

struct PodTr { using isByteCopyable = std::true_type; std::int32_t a; std::uint8_t b; };
struct PodIn : checkpoint::SerdesByteCopy { std::int64_t a = 0; std::uint8_t b = 0; };
struct PodMac { std::int32_t a; std::int16_t b; };
struct PodNi { std::uint16_t a; std::int64_t b; };
struct PodSp { std::int8_t a; std::uint32_t b; };
struct alignas(64) PodAl { using isByteCopyable = std::true_type; std::int64_t a; std::uint8_t b; };
struct Blob {
  unsigned char x[1000];
  friend bool operator<(Blob const& p, Blob const& q) { return std::memcmp(p.x, q.x, sizeof p.x) < 0; }
  friend bool operator==(Blob const& p, Blob const& q) { return std::memcmp(p.x, q.x, sizeof p.x) == 0; }
};
struct PodBig { using isByteCopyable = std::true_type; std::uint32_t a; Blob b; };

template <typename P> using is_pod_fam = std::bool_constant<
  std::is_same_v<P, PodTr> || std::is_same_v<P, PodIn> || std::is_same_v<P, PodMac> ||
  std::is_same_v<P, PodNi> || std::is_same_v<P, PodSp> || std::is_same_v<P, PodAl> || std::is_same_v<P, PodBig>>;
template <typename P, typename = std::enable_if_t<is_pod_fam<P>::value>>
bool operator<(P const& x, P const& y) { return x.a < y.a || (x.a == y.a && x.b < y.b); }
template <typename P, typename = std::enable_if_t<is_pod_fam<P>::value>>
bool operator==(P const& x, P const& y) { return x.a == y.a && x.b == y.b; }

template <typename T>
struct Conv<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> {
  static constexpr std::size_t width =
    std::is_same_v<T, long double> ? 10 : sizeof(T);
  static T make(Node const& n) {
    auto s = unhex(n.v);
    if constexpr (std::is_same_v<T, bool>) return s.at(0) != 0;
    else { T t{}; std::memcpy(&t, s.data(), std::min(s.size(), width)); return t; }
  }
  static Node proj(T const& t) {
    Node r; r.t = "b";
    if constexpr (std::is_same_v<T, bool>) {
      unsigned char raw; std::memcpy(&raw, &t, 1); r.v = hex(&raw, 1);
    } else r.v = hex(&t, width);
    return r;
  }
};
template <typename P> struct Conv<P, std::enable_if_t<is_pod_fam<P>::value>> {
  static P make(Node const& n) {
    auto s = unhex(n.v); P p{};
    std::memcpy(&p.a, s.data(), sizeof p.a);
    std::memcpy(&p.b, s.data() + sizeof p.a, sizeof p.b);
    return p;
  }
  static Node proj(P const& p) {
    Node r; r.t = "b"; r.v = hex(&p.a, sizeof p.a) + hex(&p.b, sizeof p.b); return r;
  }
};
template <typename R, typename P> struct Conv<std::chrono::duration<R, P>> {
  using T = std::chrono::duration<R, P>;
  static T make(Node const& n) { return T(vt::make<R>(n)); }
  static Node proj(T const& t) { return vt::proj(t.count()); }
};
template <> struct Conv<std::string> {
  static std::string make(Node const& n) { return unhex(n.v); }
  static Node proj(std::string const& s) {
    Node r; r.t = "str"; r.v = hex(s.data(), s.size()); r.n = (long long)(vt_full_cap ? s.capacity() : s.size()); return r;
  }
};

// ------------------------------------------------------------------ sequences
template <typename C> C makeSeq(Node const& n) {
  C c;
  for (auto& e : n.k) c.push_back(vt::make<typename C::value_type>(e));
  return c;
}
template <typename C> Node projSeq(C const& c, char const* tag) {
  Node r; r.t = tag;
  for (auto const& e : c) r.k.push_back(vt::proj<typename C::value_type>(e));
  return r;
}
template <typename T, typename A> struct Conv<std::vector<T, A>> {
  using C = std::vector<T, A>;
  static C make(Node const& n) {
    C c; c.reserve((std::size_t)n.n);
    for (auto& e : n.k) c.push_back(vt::make<T>(e));
    return c;
  }
  static Node proj(C const& c) {
    Node r; r.t = "vec"; r.n = (long long)c.capacity();
    for (auto const& e : c) r.k.push_back(vt::proj<T>(e));
    return r;
  }
};
template <typename A> struct Conv<std::vector<bool, A>> {
  using C = std::vector<bool, A>;
  static C make(Node const& n) {
    C c; c.reserve((std::size_t)n.n);
    for (auto& e : n.k) c.push_back(vt::make<bool>(e));
    return c;
  }
  static Node proj(C const& c) {
    Node r; r.t = "vec"; r.n = (long long)c.capacity();
    for (bool e : c) r.k.push_back(vt::proj<bool>(e));
    return r;
  }
};
template <typename T> struct Conv<std::list<T>> {
  static auto make(Node const& n) { return makeSeq<std::list<T>>(n); }
  static Node proj(std::list<T> const& c) { return projSeq(c, "seq"); }
};
template <typename T> struct Conv<std::deque<T>> {
  static auto make(Node const& n) { return makeSeq<std::deque<T>>(n); }
  static Node proj(std::deque<T> const& c) { return projSeq(c, "seq"); }
};
inline void dropCap(Node& x) { if (vt_full_cap) return; if (x.t == "vec") x.n = 0; for (auto& e : x.k) dropCap(e); }
template <typename T> struct Conv<std::queue<T>> {
  static auto make(Node const& n) {
    std::queue<T> q; for (auto& e : n.k) q.push(vt::make<T>(e)); return q;
  }
  struct Open : std::queue<T> { static auto const& cont(std::queue<T> const& q) { return q.*(&Open::c); } };
  static Node proj(std::queue<T> const& q) { auto r = projSeq(Open::cont(q), "seq"); dropCap(r); return r; }  // elements are copied: capacity unspecified
};
template <typename T, std::size_t N> struct Conv<std::array<T, N>> {
  template <std::size_t... I> static std::array<T, N> mk(Node const& n, std::index_sequence<I...>) {
    return std::array<T, N>{{vt::make<T>(n.k.at(I))...}};
  }
  static std::array<T, N> make(Node const& n) { return mk(n, std::make_index_sequence<N>{}); }
  static Node proj(std::array<T, N> const& c) { return projSeq(c, "seq"); }
};
template <typename T> struct Conv<std::array<T, 0>> {
  static std::array<T, 0> make(Node const&) { return {}; }
  static Node proj(std::array<T, 0> const&) { Node r; r.t = "seq"; return r; }
};

// ------------------------------------------------------------------ associative
template <typename C> C makeAssoc(Node const& n) {
  C c; for (auto& e : n.k) c.insert(vt::make<typename C::value_type>(e)); return c;
}
template <typename T, typename P> struct Conv<std::set<T, P>> {
  static auto make(Node const& n) { return makeAssoc<std::set<T, P>>(n); }
  static Node proj(std::set<T, P> const& c) { return projSeq(c, "seq"); }
};
template <typename T, typename P> struct Conv<std::multiset<T, P>> {
  static auto make(Node const& n) { return makeAssoc<std::multiset<T, P>>(n); }
  static Node proj(std::multiset<T, P> const& c) { return projSeq(c, "seq"); }
};
template <typename K, typename V, typename C> Node projMap(C const& c, char const* tag) {
  Node r; r.t = tag;
  for (auto const& e : c) {
    Node p; p.t = "tup"; p.k.push_back(vt::proj<K>(e.first)); p.k.push_back(vt::proj<V>(e.second));
    dropCap(p.k[0]);   // keys are const, hence copied: their capacity is unspecified
    r.k.push_back(std::move(p));
  }
  return r;
}
template <typename C, typename K, typename V> C makeMap(Node const& n) {
  C c; for (auto& e : n.k) c.emplace(vt::make<K>(e.k.at(0)), vt::make<V>(e.k.at(1))); return c;
}
template <typename K, typename V, typename P> struct Conv<std::map<K, V, P>> {
  using C = std::map<K, V, P>;
  static C make(Node const& n) { return makeMap<C, K, V>(n); }
  static Node proj(C const& c) { return projMap<K, V>(c, "seq"); }
};
template <typename K, typename V, typename P> struct Conv<std::multimap<K, V, P>> {
  using C = std::multimap<K, V, P>;
  static C make(Node const& n) { return makeMap<C, K, V>(n); }
  static Node proj(C const& c) { return projMap<K, V>(c, "seq"); }
};
template <typename K, typename V, typename H, typename Q> struct Conv<std::unordered_map<K, V, H, Q>> {
  using C = std::unordered_map<K, V, H, Q>;
  static C make(Node const& n) { return makeMap<C, K, V>(n); }
  static Node proj(C const& c) { return projMap<K, V>(c, "bag"); }
};
template <typename K, typename V, typename H, typename Q> struct Conv<std::unordered_multimap<K, V, H, Q>> {
  using C = std::unordered_multimap<K, V, H, Q>;
  static C make(Node const& n) { return makeMap<C, K, V>(n); }
  static Node proj(C const& c) { return projMap<K, V>(c, "bag"); }
};
template <typename T, typename H, typename Q> struct Conv<std::unordered_set<T, H, Q>> {
  using C = std::unordered_set<T, H, Q>;
  static C make(Node const& n) { return makeAssoc<C>(n); }
  static Node proj(C const& c) { return projSeq(c, "bag"); }
};
template <typename T, typename H, typename Q> struct Conv<std::unordered_multiset<T, H, Q>> {
  using C = std::unordered_multiset<T, H, Q>;
  static C make(Node const& n) { return makeAssoc<C>(n); }
  static Node proj(C const& c) { return projSeq(c, "bag"); }
};

// ------------------------------------------------------------------ sums and products
template <typename T> struct Conv<std::optional<T>> {
  static std::optional<T> make(Node const& n) {
    if (n.k.empty()) return std::nullopt;
    return std::optional<T>(vt::make<T>(n.k[0]));
  }
  static Node proj(std::optional<T> const& o) {
    Node r; r.t = "opt"; if (o) r.k.push_back(vt::proj<T>(*o)); return r;
  }
};
template <typename T, typename D> struct Conv<std::unique_ptr<T, D>> {
  static std::unique_ptr<T, D> make(Node const& n) {
    if (n.k.empty()) return nullptr;
    return std::unique_ptr<T, D>(newFrom<T>(n.k[0]));
  }
  static Node proj(std::unique_ptr<T, D> const& o) {
    Node r; r.t = "ptr"; if (o) r.k.push_back(vt::proj<T>(*o)); return r;
  }
};
template <typename... A> struct Conv<std::variant<A...>> {
  using T = std::variant<A...>;
  template <std::size_t I> static T mk(Node const& n) {
    if constexpr (I < sizeof...(A)) {
      if ((std::size_t)n.n == I) return T(std::in_place_index<I>, vt::make<std::variant_alternative_t<I, T>>(n.k.at(0)));
      return mk<I + 1>(n);
    } else { exit(97); }
  }
  static T make(Node const& n) { return mk<0>(n); }
  static Node proj(T const& v) {
    Node r; r.t = "var"; r.n = (long long)v.index();
    if (!v.valueless_by_exception())
      std::visit([&](auto const& x) { r.k.push_back(vt::proj<std::decay_t<decltype(x)>>(x)); }, v);
    else r.n = -1;
    return r;
  }
};
template <typename A, typename B> struct Conv<std::pair<A, B>> {
  using RA = std::remove_const_t<A>;
  static std::pair<A, B> make(Node const& n) {
    return std::pair<A, B>(vt::make<RA>(n.k.at(0)), vt::make<B>(n.k.at(1)));
  }
  static Node proj(std::pair<A, B> const& p) {
    Node r; r.t = "tup"; r.k.push_back(vt::proj<RA>(p.first)); r.k.push_back(vt::proj<B>(p.second)); return r;
  }
};
template <typename... A> struct Conv<std::tuple<A...>> {
  using T = std::tuple<A...>;
  template <std::size_t... I> static T mk(Node const& n, std::index_sequence<I...>) {
    return T{vt::make<A>(n.k.at(I))...};
  }
  static T make(Node const& n) { return mk(n, std::index_sequence_for<A...>{}); }
  static Node proj(T const& t) {
    Node r; r.t = "tup";
    std::apply([&](auto const&... x) { (r.k.push_back(vt::proj<std::decay_t<decltype(x)>>(x)), ...); }, t);
    return r;
  }
};

// ------------------------------------------------------------------ user-defined classes
template <typename T> struct Conv<T, std::void_t<typename T::vt_is_user>> {
  static T make(Node const& n) { return T::mk(n); }
  static Node proj(T const& t) { Node r; r.t = "tup"; t.pr(r); return r; }
};
#define VT_CMP1(X) \
  friend bool operator<(X const& x, X const& y) { return x.a < y.a; } \
  friend bool operator==(X const& x, X const& y) { return x.a == y.a; }
#define VT_ONE(X) \
  using vt_is_user = void; \
  static X mk(Node const& n) { return X(vt::make<A>(n.k.at(0))); } \
  void pr(Node& r) const { r.k.push_back(vt::proj<A>(a)); }

// intrusive
template <typename A> struct Box {
  A a{};
  Box() = default; explicit Box(A&& x) : a(std::move(x)) {}
  VT_ONE(Box) VT_CMP1(Box)
  template <typename S> void serialize(S& s) { s | a; }
};
// non-intrusive
template <typename A> struct NiBox {
  A a{};
  NiBox() = default; explicit NiBox(A&& x) : a(std::move(x)) {}
  VT_ONE(NiBox) VT_CMP1(NiBox)
};
template <typename S, typename A> void serialize(S& s, NiBox<A>& b) { s | b.a; }
// tagged constructor only
template <typename A> struct TBox {
  A a{};
  explicit TBox(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  explicit TBox(A&& x) : a(std::move(x)) {}
  VT_ONE(TBox) VT_CMP1(TBox)
  template <typename S> void serialize(S& s) { s | a; }
};
// intrusive reconstruct only
template <typename A> struct RBox {
  A a{};
  explicit RBox(int) {}
  explicit RBox(A&& x, int) : a(std::move(x)) {}
  using vt_is_user = void;
  static RBox mk(Node const& n) { return RBox(vt::make<A>(n.k.at(0)), 0); }
  void pr(Node& r) const { r.k.push_back(vt::proj<A>(a)); }
  VT_CMP1(RBox)
  static RBox& reconstruct(void* buf) { return *new (buf) RBox(0); }
  template <typename S> void serialize(S& s) { s | a; }
};
// non-intrusive reconstruct only
template <typename A> struct RnBox {
  A a{};
  explicit RnBox(int) {}
  explicit RnBox(A&& x, int) : a(std::move(x)) {}
  using vt_is_user = void;
  static RnBox mk(Node const& n) { return RnBox(vt::make<A>(n.k.at(0)), 0); }
  void pr(Node& r) const { r.k.push_back(vt::proj<A>(a)); }
  VT_CMP1(RnBox)
  template <typename S> void serialize(S& s) { s | a; }
};
template <typename A> void reconstruct(RnBox<A>*& t, void* buf) { t = new (buf) RnBox<A>(0); }
// C array member
template <typename A> struct CArr {
  A a[3];
  using vt_is_user = void;
  CArr() : a{} {}
  explicit CArr(Node const& n) : a{vt::make<A>(n.k.at(0)), vt::make<A>(n.k.at(1)), vt::make<A>(n.k.at(2))} {}
  static CArr mk(Node const& n) { return CArr(n); }
  void pr(Node& r) const { for (auto& e : a) r.k.push_back(vt::proj<A>(e)); }
  friend bool operator<(CArr const& x, CArr const& y) { return std::lexicographical_compare(x.a, x.a + 3, y.a, y.a + 3); }
  friend bool operator==(CArr const& x, CArr const& y) { return std::equal(x.a, x.a + 3, y.a); }
  template <typename S> void serialize(S& s) { checkpoint::dispatch::serializeArray(s, a, 3); }
};
// two members, and inheritance with an explicit base call
template <typename A, typename B> struct Rec {
  A a{}; B b{};
  using vt_is_user = void;
  Rec() = default; Rec(A&& x, B&& y) : a(std::move(x)), b(std::move(y)) {}
  static Rec mk(Node const& n) { return Rec(vt::make<A>(n.k.at(0)), vt::make<B>(n.k.at(1))); }
  void pr(Node& r) const { r.k.push_back(vt::proj<A>(a)); r.k.push_back(vt::proj<B>(b)); }
  friend bool operator<(Rec const& x, Rec const& y) { return x.a < y.a || (!(y.a < x.a) && x.b < y.b); }
  friend bool operator==(Rec const& x, Rec const& y) { return x.a == y.a && x.b == y.b; }
  template <typename S> void serialize(S& s) { s | a | b; }
};
template <typename A, typename B> struct Der : Rec<A, B> {
  std::uint16_t c = 0;
  using vt_is_user = void;
  Der() = default; Der(A&& x, B&& y, std::uint16_t z) : Rec<A, B>(std::move(x), std::move(y)), c(z) {}
  static Der mk(Node const& n) { return Der(vt::make<A>(n.k.at(0)), vt::make<B>(n.k.at(1)), vt::make<std::uint16_t>(n.k.at(2))); }
  void pr(Node& r) const { Rec<A, B>::pr(r); r.k.push_back(vt::proj(c)); }
  friend bool operator<(Der const& x, Der const& y) { return static_cast<Rec<A, B> const&>(x) < y; }
  friend bool operator==(Der const& x, Der const& y) { return static_cast<Rec<A, B> const&>(x) == y && x.c == y.c; }
  template <typename S> void serialize(S& s) { Rec<A, B>::serialize(s); s | c; }
};
// classes that contain themselves
template <typename A> struct Tree {
  A a{}; std::vector<Tree> k;
  using vt_is_user = void;
  static Tree mk(Node const& n) {
    Tree t; t.a = vt::make<A>(n.k.at(0)); t.k.reserve((std::size_t)n.k.at(1).n);
    for (auto& e : n.k[1].k) t.k.push_back(mk(e));
    return t;
  }
  void pr(Node& r) const {
    r.k.push_back(vt::proj<A>(a));
    Node v; v.t = "vec"; v.n = (long long)k.capacity();
    for (auto& e : k) { Node x; x.t = "tup"; e.pr(x); v.k.push_back(x); }
    r.k.push_back(v);
  }
  template <typename S> void serialize(S& s) { s | a | k; }
};
template <typename A> struct Link {
  A a{}; std::unique_ptr<Link> next;
  using vt_is_user = void;
  static Link mk(Node const& n) {
    Link t; t.a = vt::make<A>(n.k.at(0));
    if (!n.k.at(1).k.empty()) t.next = std::make_unique<Link>(mk(n.k[1].k[0]));
    return t;
  }
  void pr(Node& r) const {
    r.k.push_back(vt::proj<A>(a));
    Node v; v.t = "ptr"; if (next) { Node x; x.t = "tup"; next->pr(x); v.k.push_back(x); }
    r.k.push_back(v);
  }
  template <typename S> void serialize(S& s) { s | a | next; }
};
// ... through every node-based or lazily instantiated container
template <typename A> struct Bush {
  A a{}; std::map<std::int32_t, Bush> m; std::list<Bush> l; std::deque<Bush> d; std::vector<std::optional<Bush>> o; std::vector<std::variant<std::int32_t, Bush>> v;
  using vt_is_user = void;
  static Bush mk(Node const& n) {
    Bush t; t.a = vt::make<A>(n.k.at(0)); t.m = vt::make<decltype(t.m)>(n.k.at(1)); t.l = vt::make<decltype(t.l)>(n.k.at(2)); t.d = vt::make<decltype(t.d)>(n.k.at(3));
    t.o = vt::make<decltype(t.o)>(n.k.at(4)); t.v = vt::make<decltype(t.v)>(n.k.at(5));
    return t;
  }
  void pr(Node& r) const { r.k = {vt::proj<A>(a), vt::proj(m), vt::proj(l), vt::proj(d), vt::proj(o), vt::proj(v)}; }
  template <typename S> void serialize(S& s) { s | a | m | l | d | o | v; }
};
// pointers handled by the documented helper
template <typename A> struct RPtr {
  A* p = nullptr;
  using vt_is_user = void;
  RPtr() = default;
  RPtr(RPtr&& o) : p(o.p) { o.p = nullptr; }
  RPtr& operator=(RPtr&& o) { std::swap(p, o.p); return *this; }
  ~RPtr() { delete p; }
  static RPtr mk(Node const& n) { RPtr r; if (!n.k.at(0).k.empty()) r.p = newFrom<A>(n.k[0].k[0]); return r; }
  void pr(Node& r) const { Node x; x.t = "ptr"; if (p) x.k.push_back(vt::proj<A>(*p)); r.k.push_back(x); }
  template <typename S> void serialize(S& s) {
    bool is_null = p == nullptr;
    s | is_null;
    if (is_null) { if (s.isUnpacking()) { delete p; p = nullptr; } return; }
    checkpoint::reconstructPointedToObjectIfNeeded(s, p);
    s | *p;
  }
};
template <typename A> struct SPtr {
  std::shared_ptr<A> p;
  using vt_is_user = void;
  static SPtr mk(Node const& n) { SPtr r; if (!n.k.at(0).k.empty()) r.p = std::shared_ptr<A>(newFrom<A>(n.k[0].k[0])); return r; }
  void pr(Node& r) const { Node x; x.t = "ptr"; if (p) x.k.push_back(vt::proj<A>(*p)); r.k.push_back(x); }
  template <typename S> void serialize(S& s) {
    bool is_null = p == nullptr;
    s | is_null;
    if (is_null) { if (s.isUnpacking()) p.reset(); return; }
    A* raw = s.isUnpacking() ? nullptr : p.get();
    checkpoint::reconstructPointedToObjectIfNeeded(s, raw);
    if (s.isUnpacking()) p = std::shared_ptr<A>(raw);
    s | *p;
  }
};

} // namespace vt

CHECKPOINT_BYTES(vt::PodMac)
namespace checkpoint {
template <> struct ByteCopyNonIntrusive<vt::PodNi> { using isByteCopyable = std::true_type; };
template <> struct isByteCopyable<vt::PodSp> : std::true_type {};
}

// ------------------------------------------------------------------ a class hierarchy
namespace vt {
struct PolyBase : checkpoint::SerializableBase<PolyBase> {
  std::int32_t a = 0;
  PolyBase() = default;
  explicit PolyBase(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  virtual ~PolyBase() = default;
  virtual int cls() const { return 0; }
  virtual void pr(Node& r) const { r.k.push_back(vt::proj(a)); }
  template <typename S> void serialize(S& s) { s | a; }
};
struct PolyMid : checkpoint::SerializableDerived<PolyMid, PolyBase> {
  std::string b;
  PolyMid() = default;
  explicit PolyMid(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  int cls() const override { return 1; }
  void pr(Node& r) const override { PolyBase::pr(r); r.k.push_back(vt::proj(b)); }
  template <typename S> void serialize(S& s) { s | b; }
};
struct PolyLeaf : checkpoint::SerializableDerived<PolyLeaf, PolyMid> {
  std::vector<std::int16_t> c;
  PolyLeaf() = default;
  explicit PolyLeaf(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  int cls() const override { return 2; }
  void pr(Node& r) const override { PolyMid::pr(r); auto x = vt::proj(c); dropCap(x); r.k.push_back(x); }
  template <typename S> void serialize(S& s) { s | c; }
};
struct Poly {
  std::unique_ptr<PolyBase> p;
  using vt_is_user = void;
  static Poly mk(Node const& n) {
    Poly r;
    if (n.k.at(0).k.empty()) return r;
    auto const& v = n.k[0].k[0];
    if (v.n == 0) r.p = std::make_unique<PolyBase>();
    if (v.n == 1) { auto x = std::make_unique<PolyMid>(); x->b = vt::make<std::string>(v.k.at(1)); r.p = std::move(x); }
    if (v.n == 2) { auto x = std::make_unique<PolyLeaf>(); x->b = vt::make<std::string>(v.k.at(1)); x->c = vt::make<std::vector<std::int16_t>>(v.k.at(2)); r.p = std::move(x); }
    r.p->a = vt::make<std::int32_t>(v.k.at(0));
    return r;
  }
  void pr(Node& r) const {
    Node x; x.t = "ptr";
    if (p) { Node y; y.t = "var"; y.n = p->cls(); p->pr(y); x.k.push_back(y); }
    r.k.push_back(x);
  }
  template <typename S> void serialize(S& s) { s | p; }
};
} // namespace vt
