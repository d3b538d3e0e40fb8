// Objects whose whole life is recorded: construction (and by which means), copies, moves,
// assignments, destruction and every call of their serialize function. Their value is x
// (serialized) and y (never mentioned by serialize: the constructor's or the user's).
#pragma once
#include "types.h"
#include <exception>

namespace vt {
void lifeEvent(char const* e, int a, int b, char const* k, char const* h);
int lifeId();
struct LifeCtl { int throwPass = -1, throwAt = -1, steps[4] = {0, 0, 0, 0}; bool threw = false; };
extern LifeCtl lctl;
struct LifeError : std::exception { char const* what() const noexcept override { return "user error"; } };
struct How { char const* kind; char const* how; std::size_t align = 1; };

struct Life {
  int id; char const* kind; std::size_t align; std::int32_t x = 0, y = 7;
  // where the object was put has to suit its class
  void at(void const* p, std::size_t a) const { if (reinterpret_cast<std::uintptr_t>(p) % a) lifeEvent("misplaced", id, 0, kind, ""); }
  void placed() const { at(this, align); }
  explicit Life(How h) : id(lifeId()), kind(h.kind), align(h.align) { lifeEvent("new", id, 0, kind, h.how); placed(); }
  Life(Life const& o) : id(lifeId()), kind(o.kind), align(o.align), x(o.x), y(o.y) { lifeEvent("cp", id, o.id, "", ""); placed(); }
  Life(Life&& o) noexcept : id(lifeId()), kind(o.kind), align(o.align), x(o.x), y(o.y) { lifeEvent("cp", id, o.id, "", ""); placed(); }
  Life& operator=(Life const& o) { x = o.x; y = o.y; lifeEvent("as", id, o.id, "", ""); return *this; }
  Life& operator=(Life&& o) noexcept { x = o.x; y = o.y; lifeEvent("as", id, o.id, "", ""); return *this; }
  ~Life() { lifeEvent("del", id, 0, "", ""); }
  template <typename S> void step(S& s) {
    int const ps = s.isSizing() ? 0 : s.isPacking() ? 1 : s.isUnpacking() ? 2 : 3;
    if (lctl.steps[ps]++ == lctl.throwAt && ps == lctl.throwPass) { lctl.threw = true; throw LifeError(); }
  }
  template <typename S, typename F> void visit(S& s, int level, F&& f) {
    int const ps = s.isSizing() ? 0 : s.isPacking() ? 1 : s.isUnpacking() ? 2 : 3;
    lifeEvent("vis", id, ps, "", level == 0 ? "0" : level == 1 ? "1" : level == 2 ? "2" : "3");
    step(s);
    f();
    step(s);
  }
  friend bool operator<(Life const& a, Life const& b) { return a.x < b.x; }
  friend bool operator==(Life const& a, Life const& b) { return a.x == b.x; }
  std::size_t vt_hash() const { return (std::size_t)x; }
  void set(Node const& n) { x = vt::make<std::int32_t>(n.k.at(0)); y = vt::make<std::int32_t>(n.k.at(1)); }
  void pr(Node& r) const { r.t = "pb"; r.n = id; r.v = ""; r.k = {vt::proj(x), vt::proj(y)}; }
};
#define LIFE_COMMON(T) \
  using vt_is_user = void; \
  struct Usr {}; \
  explicit T(Usr) : Life(How{#T, "usr", alignof(T)}) {} \
  static T mk(Node const& n) { T t{Usr{}}; t.set(n); return t; }
#define LIFE_COPY(T) T(T const&) = default; T(T&&) = default; T& operator=(T const&) = default; T& operator=(T&&) = default;
#define LIFE_MOVE(T) T(T const&) = delete; T(T&&) = default; T& operator=(T const&) = delete; T& operator=(T&&) = default;
#define LIFE_DEF(T) T() : Life(How{#T, "def", alignof(T)}) {}
#define LIFE_TAG(T) explicit T(checkpoint::SERIALIZE_CONSTRUCT_TAG) : Life(How{#T, "tag", alignof(T)}) {}
#define LIFE_RECCTOR(T) struct Rct {}; explicit T(Rct) : Life(How{#T, "rec", alignof(T)}) {}
#define LIFE_MEMREC(T) static T& reconstruct(void* b) { return *new (b) T(Rct{}); }
#define LIFE_FREEREC(T) inline void reconstruct(T*& t, void* b) { t = new (b) T(T::Rct{}); }
#define LIFE_SPECREC(T) namespace checkpoint { template <> struct CheckpointReconstructor<vt::T> { static void reconstruct(vt::T*& t, void* b) { t = new (b) vt::T(vt::T::Rct{}); } }; }
#define LIFE_SER(T) template <typename S> void serialize(S& s) { visit(s, 0, [&] { s | x; }); }

// ---- ways to say how a class is handled (C18)
// free serialize
struct FreeSer : Life { LIFE_COMMON(FreeSer) LIFE_DEF(FreeSer) LIFE_COPY(FreeSer) };
template <typename S> void serialize(S& s, FreeSer& t) { t.visit(s, 0, [&] { s | t.x; }); }
// serialize, then serializeParent, then serializeThis
struct SplitSer : Life {
  LIFE_COMMON(SplitSer) LIFE_DEF(SplitSer) LIFE_COPY(SplitSer)
  std::int16_t p = 0, q = 0;
  template <typename S> void serialize(S& s) { visit(s, 0, [&] { s | x; }); }
  template <typename S> void serializeParent(S& s) { visit(s, 1, [&] { s | p; }); }
  template <typename S> void serializeThis(S& s) { visit(s, 2, [&] { s | q; }); }
};
// declared not byte-copyable: by its serialize function
struct NotBytes : Life {
  using isByteCopyable = std::false_type;
  LIFE_COMMON(NotBytes) LIFE_DEF(NotBytes) LIFE_COPY(NotBytes) LIFE_SER(NotBytes)
};
// byte copied although they have a serialize function (which must never be called)
struct Bytes {
  std::int32_t x = 0, y = 7;
  using vt_is_user = void;
  friend bool operator<(Bytes const& a, Bytes const& b) { return a.x < b.x; }
  friend bool operator==(Bytes const& a, Bytes const& b) { return a.x == b.x; }
  std::size_t vt_hash() const { return (std::size_t)x; }
  void pr(Node& r) const { r.t = "bc"; r.k = {vt::proj(x), vt::proj(y)}; }
  template <typename T> static T mkT(Node const& n) { T t; t.x = vt::make<std::int32_t>(n.k.at(0)); t.y = vt::make<std::int32_t>(n.k.at(1)); return t; }
  void called() { lifeEvent("called", 0, 0, "", ""); }
};
#define BYTES(T) static T mk(Node const& n) { return mkT<T>(n); }
#define BYTES_SER template <typename S> void serialize(S& s) { called(); s | x; }
struct BMem : Bytes { BYTES(BMem) using isByteCopyable = std::true_type; BYTES_SER };
struct BInh : Bytes, checkpoint::SerdesByteCopy { BYTES(BInh) BYTES_SER };
struct BTr : Bytes { BYTES(BTr) BYTES_SER };
struct BSp : Bytes { BYTES(BSp) BYTES_SER };
struct BFree : Bytes { BYTES(BFree) using isByteCopyable = std::true_type; };
template <typename S> void serialize(S& s, BFree& t) { t.called(); s | t.x; }
struct BMac : Bytes { BYTES(BMac) };
struct BNone : Bytes { BYTES(BNone) using isByteCopyable = std::true_type; };
} // namespace vt
CHECKPOINT_BYTES(vt::BMac)
namespace checkpoint {
template <> struct ByteCopyNonIntrusive<vt::BTr> { using isByteCopyable = std::true_type; };
template <> struct isByteCopyable<vt::BSp> : std::true_type {};
}

// ------------------------------------------------------------------ class hierarchies (C11)
// Each object: one life; each level has x_l and may have pointees. Value term:
// [po id cls [lv members...] [lv members...] ...], classes by name in v.
namespace vt {
template <typename R> struct Show {
  virtual ~Show() = default;
  virtual char const* cls() const = 0;
  virtual void build(Node const& n) = 0;    // n: the po node
  virtual void show(Node& r) const = 0;     // appends the levels
};
inline Node lv(std::vector<Node> k) { Node r; r.t = "lv"; r.k = std::move(k); return r; }
inline std::int32_t num(Node const& n, int l, int i) { return vt::make<std::int32_t>(n.k.at(l).k.at(i)); }
#define POLY_ROOT(R) \
  using vt_is_user = void; using vt_poly = void; \
  static R* factory(Node const& n); \
  void pr(Node& r) const { r.t = "po"; r.n = id; r.v = cls(); show(r); }
#define POLY_CLASS(T) char const* cls() const override { return #T; }
// levels: own number, and optional members

// --- hierarchy A: CRTP, concrete root; siblings; pointees owned by unique_ptr
struct A0 : checkpoint::SerializableBase<A0>, Life, Show<A0> {
  POLY_ROOT(A0) POLY_CLASS(A0)
  explicit A0(How h) : Life(h) {}
  A0() : Life(How{"A0", "def"}) {}
  void build(Node const& n) override { x = num(n, 0, 0); }
  void show(Node& r) const override { r.k.push_back(lv({vt::proj(x)})); }
  template <typename S> void serialize(S& s) { visit(s, 0, [&] { s | x; }); }
};
struct A1 : checkpoint::SerializableDerived<A1, A0> {
  using B = checkpoint::SerializableDerived<A1, A0>;
  POLY_CLASS(A1)
  std::int32_t x1 = 0; std::unique_ptr<A0> kid;
  explicit A1(How h) : B(h) {}
  A1() : B(How{"A1", "def"}) {}
  void build(Node const& n) override { A0::build(n); x1 = num(n, 1, 0); kid = vt::make<std::unique_ptr<A0>>(n.k[1].k.at(1)); }
  void show(Node& r) const override { A0::show(r); r.k.push_back(lv({vt::proj(x1), vt::proj(kid)})); }
  template <typename S> void serialize(S& s) { visit(s, 1, [&] { s | x1; s | kid; }); }
};
struct alignas(64) A2 : checkpoint::SerializableDerived<A2, A1> {
  using B = checkpoint::SerializableDerived<A2, A1>;
  POLY_CLASS(A2)
  std::int32_t x2 = 0; std::vector<std::unique_ptr<A0>> kids;
  explicit A2(How h) : B(h) {}
  A2() : B(How{"A2", "def"}) { at(this, alignof(A2)); }
  explicit A2(checkpoint::SERIALIZE_CONSTRUCT_TAG) : B(How{"A2", "tag"}) { at(this, alignof(A2)); }
  void build(Node const& n) override { A1::build(n); x2 = num(n, 2, 0); kids = vt::make<std::vector<std::unique_ptr<A0>>>(n.k[2].k.at(1)); }
  void show(Node& r) const override { A1::show(r); auto v = vt::proj(kids); v.n = 0; r.k.push_back(lv({vt::proj(x2), v})); }
  template <typename S> void serialize(S& s) { visit(s, 2, [&] { s | x2; s | kids; }); }
};
struct A3 : checkpoint::SerializableDerived<A3, A1> {   // sibling of A2, same layout prefix
  using B = checkpoint::SerializableDerived<A3, A1>;
  POLY_CLASS(A3)
  std::int32_t x3 = 0;
  explicit A3(How h) : B(h) {}
  static A3& reconstruct(void* b) { return *new (b) A3(How{"A3", "rec"}); }
  void build(Node const& n) override { A1::build(n); x3 = num(n, 2, 0); }
  void show(Node& r) const override { A1::show(r); r.k.push_back(lv({vt::proj(x3)})); }
  template <typename S> void serialize(S& s) { visit(s, 2, [&] { s | x3; }); }
};
// --- hierarchy M: macros, abstract root and abstract middle; shared and raw pointees
struct M0 : Life, Show<M0> {
  POLY_ROOT(M0)
  checkpoint_virtual_serialize_root()
  explicit M0(How h) : Life(h) {}
  virtual int pure() const = 0;
  void build(Node const& n) override { x = num(n, 0, 0); }
  void show(Node& r) const override { r.k.push_back(lv({vt::proj(x)})); }
  template <typename S> void serialize(S& s) { visit(s, 0, [&] { s | x; }); }
};
struct M1 : M0 {
  checkpoint_virtual_serialize_derived_from(M0)
  std::int32_t x1 = 0; SPtr<M0> kid;
  explicit M1(How h) : M0(h) {}
  virtual int pure2() const = 0;
  void build(Node const& n) override { M0::build(n); x1 = num(n, 1, 0); kid = vt::make<SPtr<M0>>(n.k[1].k.at(1)); }
  void show(Node& r) const override { M0::show(r); r.k.push_back(lv({vt::proj(x1), vt::proj(kid)})); }
  template <typename S> void serialize(S& s) { visit(s, 1, [&] { s | x1; s | kid; }); }
};
struct M2 : M1 {
  checkpoint_virtual_serialize_derived_from(M1)
  POLY_CLASS(M2)
  std::int32_t x2 = 0; RPtr<M0> kid2;
  explicit M2(How h) : M1(h) {}
  M2() : M1(How{"M2", "def"}) {}
  int pure() const override { return 2; } int pure2() const override { return 2; }
  void build(Node const& n) override { M1::build(n); x2 = num(n, 2, 0); kid2 = vt::make<RPtr<M0>>(n.k[2].k.at(1)); }
  void show(Node& r) const override { M1::show(r); r.k.push_back(lv({vt::proj(x2), vt::proj(kid2)})); }
  template <typename S> void serialize(S& s) { visit(s, 2, [&] { s | x2; s | kid2; }); }
};
struct M3 : M2 {
  checkpoint_virtual_serialize_derived_from(M2)
  POLY_CLASS(M3)
  std::int32_t x3 = 0;
  explicit M3(How h) : M2(h) {}
  explicit M3(checkpoint::SERIALIZE_CONSTRUCT_TAG) : M2(How{"M3", "tag"}) {}
  void build(Node const& n) override { M2::build(n); x3 = num(n, 3, 0); }
  void show(Node& r) const override { M2::show(r); r.k.push_back(lv({vt::proj(x3)})); }
  template <typename S> void serialize(S& s) { visit(s, 3, [&] { s | x3; }); }
};
struct M4 : M0 {
  checkpoint_virtual_serialize_derived_from(M0)
  POLY_CLASS(M4)
  std::int64_t big = 0;
  explicit M4(How h) : M0(h) {}
  M4() : M0(How{"M4", "def"}) {}
  int pure() const override { return 4; }
  void build(Node const& n) override { M0::build(n); big = num(n, 1, 0); }
  void show(Node& r) const override { M0::show(r); r.k.push_back(lv({vt::proj((std::int32_t)big)})); }
  template <typename S> void serialize(S& s) { visit(s, 1, [&] { s | big; }); }
};
// --- values (not pointers) of polymorphic classes, copyable
struct V0 : checkpoint::SerializableBase<V0>, Life, Show<V0> {
  POLY_ROOT(V0) POLY_CLASS(V0)
  explicit V0(How h) : Life(h) {}
  V0() : Life(How{"V0", "def"}) {}
  static V0 mk(Node const& n) { V0 v(How{"V0", "usr"}); v.build(n); return v; }
  void build(Node const& n) override { x = num(n, 0, 0); }
  void show(Node& r) const override { r.k.push_back(lv({vt::proj(x)})); }
  template <typename S> void serialize(S& s) { visit(s, 0, [&] { s | x; }); }
};
struct V1 : checkpoint::SerializableDerived<V1, V0> {
  using B = checkpoint::SerializableDerived<V1, V0>;
  POLY_CLASS(V1)
  std::int32_t x1 = 0;
  explicit V1(How h) : B(h) {}
  V1() : B(How{"V1", "def"}) {}
  static V1 mk(Node const& n) { V1 v(How{"V1", "usr"}); v.build(n); return v; }
  void build(Node const& n) override { V0::build(n); x1 = num(n, 1, 0); }
  void show(Node& r) const override { V0::show(r); r.k.push_back(lv({vt::proj(x1)})); }
  template <typename S> void serialize(S& s) { visit(s, 1, [&] { s | x1; }); }
};
// an object that contains polymorphic members next to plain ones
struct Holder {
  std::int32_t a = 0; std::unique_ptr<A0> p; V1 v{How{"V1", "def"}}; V1 w[2]{V1(How{"V1", "def"}), V1(How{"V1", "def"})}; std::int32_t b = 0;
  using vt_is_user = void;
  static Holder mk(Node const& n) { Holder h; h.a = vt::make<std::int32_t>(n.k.at(0)); h.p = vt::make<std::unique_ptr<A0>>(n.k.at(1));
    h.v.build(n.k.at(2)); h.w[0].build(n.k.at(3)); h.w[1].build(n.k.at(4)); h.b = vt::make<std::int32_t>(n.k.at(5)); return h; }
  void pr(Node& r) const { r.k = {vt::proj(a), vt::proj(p), vt::proj(v), vt::proj(w[0]), vt::proj(w[1]), vt::proj(b)}; }
  template <typename S> void serialize(S& s) { s | a; s | p; s | v; checkpoint::dispatch::serializeArray(s, w, 2); s | b; }
};
// pointers to a class in the middle of a hierarchy
template <typename T, typename R> T* polyNew(Node const& n, R* r) { auto t = dynamic_cast<T*>(r); if (!t) exit(97); return t; }
inline A0* A0::factory(Node const& n) {
  A0* r = nullptr;
  if (n.v == "A0") r = new A0(How{"A0", "usr"}); else if (n.v == "A1") r = new A1(How{"A1", "usr"});
  else if (n.v == "A2") r = new A2(How{"A2", "usr"}); else if (n.v == "A3") r = new A3(How{"A3", "usr"}); else exit(97);
  r->build(n); return r;
}
inline M0* M0::factory(Node const& n) {
  M0* r = nullptr;
  if (n.v == "M2") r = new M2(How{"M2", "usr"}); else if (n.v == "M3") r = new M3(How{"M3", "usr"}); else if (n.v == "M4") r = new M4(How{"M4", "usr"}); else exit(97);
  r->build(n); return r;
}
inline V0* V0::factory(Node const& n) {
  V0* r = nullptr;
  if (n.v == "V0") r = new V0(How{"V0", "usr"}); else if (n.v == "V1") r = new V1(How{"V1", "usr"}); else exit(97);
  r->build(n); return r;
}
} // namespace vt
