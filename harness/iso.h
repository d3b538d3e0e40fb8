// Objects whose serialize functions are scheduling points: every call reports where it is and
// lets the harness run something else (another thread's step, a nested operation) or fail.
#pragma once
#define WITH_STREAMS
#define WITH_FOOTPRINT
#include "ops.h"
#include <exception>

namespace iso {
using vt::Node;
void gate(char const* tag, int pass, long long x, long long used, bool plain);
struct GateError : std::exception { char const* what() const noexcept override { return "user error"; } };
template <typename S> int passOf(S& s) { return s.isSizing() ? 0 : s.isPacking() ? 1 : s.isUnpacking() ? 2 : s.isFootprinting() ? 3 : 4; }
template <typename S> void at(S& s, char const* tag, long long x) { gate(tag, passOf(s), x, (long long)s.usedBufferSize(), s.isVirtualDisabled()); }

struct G {
  std::int32_t x = 0;
  using vt_is_user = void;
  G() = default;
  static G mk(Node const& n) { G g; g.x = vt::make<std::int32_t>(n.k.at(0)); return g; }
  void pr(Node& r) const { r.k.push_back(vt::proj(x)); }
  friend bool operator<(G const& a, G const& b) { return a.x < b.x; }
  friend bool operator==(G const& a, G const& b) { return a.x == b.x; }
  template <typename S> void serialize(S& s) { at(s, "g", x); s | x; at(s, "G", x); }
};
// scheduling points between members of library types
struct H {
  std::string a; std::vector<std::int32_t> b; G g;
  using vt_is_user = void;
  static H mk(Node const& n) { H h; h.a = vt::make<std::string>(n.k.at(0)); h.b = vt::make<std::vector<std::int32_t>>(n.k.at(1)); h.g = G::mk(n.k.at(2)); return h; }
  void pr(Node& r) const { auto v = vt::proj(b); v.n = 0; r.k = {vt::proj(a), v, vt::proj(g)}; }
  template <typename S> void serialize(S& s) { at(s, "h", (long long)a.size()); s | a; at(s, "i", (long long)b.size()); s | b | g; at(s, "H", g.x); }
};
// class hierarchies: by base classes and by macros
template <typename R> struct Show { virtual ~Show() = default; virtual int cls() const = 0; virtual void build(Node const&) = 0; virtual void show(Node&) const = 0; };
#define ISO_ROOT(R) using vt_is_user = void; using vt_poly = void; static R* factory(Node const& n); \
  void pr(Node& r) const { r.t = "po"; r.n = cls(); show(r); }
inline std::int32_t num(Node const& n, int i) { return vt::make<std::int32_t>(n.k.at(i)); }
struct P0 : checkpoint::SerializableBase<P0>, Show<P0> {
  ISO_ROOT(P0)
  std::int32_t x = 0;
  int cls() const override { return 0; }
  void build(Node const& n) override { x = num(n, 0); }
  void show(Node& r) const override { r.k.push_back(vt::proj(x)); }
  template <typename S> void serialize(S& s) { at(s, "p", x); s | x; at(s, "P", x); }
};
struct P1 : checkpoint::SerializableDerived<P1, P0> {
  std::int32_t x1 = 0; std::unique_ptr<P0> kid;
  int cls() const override { return 1; }
  void build(Node const& n) override { P0::build(n); x1 = num(n, 1); kid = vt::make<std::unique_ptr<P0>>(n.k.at(2)); }
  void show(Node& r) const override { P0::show(r); r.k.push_back(vt::proj(x1)); r.k.push_back(vt::proj(kid)); }
  template <typename S> void serialize(S& s) { at(s, "q", x1); s | x1; at(s, "r", x1); s | kid; at(s, "Q", x1); }
};
struct P2 : checkpoint::SerializableDerived<P2, P1> {
  std::int32_t x2 = 0; G g;
  int cls() const override { return 2; }
  void build(Node const& n) override { P1::build(n); x2 = num(n, 3); g = G::mk(n.k.at(4)); }
  void show(Node& r) const override { P1::show(r); r.k.push_back(vt::proj(x2)); r.k.push_back(vt::proj(g)); }
  template <typename S> void serialize(S& s) { at(s, "s", x2); s | x2 | g; at(s, "S", x2); }
};
inline P0* P0::factory(Node const& n) { P0* r = n.n == 0 ? new P0 : n.n == 1 ? new P1 : (P0*)new P2; r->build(n); return r; }
struct M0 : Show<M0> {
  ISO_ROOT(M0)
  checkpoint_virtual_serialize_root()
  std::int32_t x = 0;
  void build(Node const& n) override { x = num(n, 0); }
  void show(Node& r) const override { r.k.push_back(vt::proj(x)); }
  template <typename S> void serialize(S& s) { at(s, "m", x); s | x; at(s, "M", x); }
};
struct M1 : M0 {
  checkpoint_virtual_serialize_derived_from(M0)
  std::string t;
  int cls() const override { return 1; }
  void build(Node const& n) override { M0::build(n); t = vt::make<std::string>(n.k.at(1)); }
  void show(Node& r) const override { M0::show(r); r.k.push_back(vt::proj(t)); }
  template <typename S> void serialize(S& s) { at(s, "n", (long long)t.size()); s | t; at(s, "N", (long long)t.size()); }
};
struct M2 : M1 {
  checkpoint_virtual_serialize_derived_from(M1)
  std::unique_ptr<P0> other;                 // an object of the other hierarchy inside
  int cls() const override { return 2; }
  void build(Node const& n) override { M1::build(n); other = vt::make<std::unique_ptr<P0>>(n.k.at(2)); }
  void show(Node& r) const override { M1::show(r); r.k.push_back(vt::proj(other)); }
  template <typename S> void serialize(S& s) { at(s, "o", 0); s | other; at(s, "O", 0); }
};
inline M0* M0::factory(Node const& n) { M0* r = n.n == 1 ? new M1 : (M0*)new M2; r->build(n); return r; }
// polymorphic members next to others, by value and in an array
struct Mix {
  G g; std::unique_ptr<P0> p; P0 v; P0 w[2]; vt::SPtr<M0> m;
  using vt_is_user = void;
  static Mix mk(Node const& n) {
    Mix r; r.g = G::mk(n.k.at(0)); r.p = vt::make<std::unique_ptr<P0>>(n.k.at(1)); r.v.x = num(n, 2); r.w[0].x = num(n, 3); r.w[1].x = num(n, 4);
    r.m = vt::make<vt::SPtr<M0>>(n.k.at(5)); return r;
  }
  void pr(Node& r) const { r.k = {vt::proj(g), vt::proj(p), vt::proj(v.x), vt::proj(w[0].x), vt::proj(w[1].x), vt::proj(m)}; }
  template <typename S> void serialize(S& s) { s | g; at(s, "x", 0); s | p; at(s, "y", 0); s | v; checkpoint::dispatch::serializeArray(s, w, 2); at(s, "z", 0); s | m; at(s, "X", 0); }
};
// a traversal of the user's own
struct Trav : checkpoint::BaseSerializer {
  std::string bytes; int calls = 0;
  Trav() : checkpoint::BaseSerializer(ModeType::None) {}
  void contiguousBytes(void* p, checkpoint::SerialSizeType size, checkpoint::SerialSizeType n) { calls++; bytes.append((char const*)p, size * n); }
};
struct IsoOps { virtual ~IsoOps() = default; virtual vt::TypeOps& ops() = 0; virtual std::string trav(void*) = 0; };
template <typename T> struct IsoOpsOf : IsoOps {
  vt::Ops<T, false> o;
  vt::TypeOps& ops() override { return o; }
  std::string trav(void* p) override {
    auto t = checkpoint::dispatch::Traverse::with<T, Trav>(*static_cast<T*>(p));
    return std::to_string(t.calls) + "," + std::to_string(t.bytes.size()) + "," + vt::fnv(t.bytes.data(), t.bytes.size());
  }
};
std::vector<std::pair<int, IsoOps*>>& table();
struct RegisterIso { RegisterIso(int id, IsoOps* o) { table().emplace_back(id, o); } };
} // namespace iso
