// Class hierarchies, traversals and operations used from several translation units, each
// of which knows only some of the types, classes and traversals.
#pragma once
#include "types.h"
#include "guard.h"
#include <cstdint>
#include <fstream>
#include <functional>
#include <unistd.h>
#include <sstream>
#include <string>

namespace rg {
using vt::Node;

// ---------------------------------------------------------------- user-defined traversals
template <int I> struct Trav : checkpoint::BaseSerializer {
  std::string bytes;
  Trav() : checkpoint::BaseSerializer(ModeType::None) {}
  void contiguousBytes(void* p, checkpoint::SerialSizeType size, checkpoint::SerialSizeType n) { bytes.append((char const*)p, size * n); }
};

// ---------------------------------------------------------------- log of serialize calls
struct Visit { char const* cls; char const* by; };
extern std::vector<Visit> visits;
extern std::string scratchFile;
template <typename S> struct Name { static constexpr char const* v = "?"; };
template <> struct Name<checkpoint::Sizer> { static constexpr char const* v = "Sizer"; };
template <> struct Name<checkpoint::Footprinter> { static constexpr char const* v = "Footprinter"; };
template <> struct Name<checkpoint::Packer> { static constexpr char const* v = "Packer"; };
template <> struct Name<checkpoint::PackerUserBuf> { static constexpr char const* v = "PackerUserBuf"; };
template <> struct Name<checkpoint::PackerIO> { static constexpr char const* v = "PackerIO"; };
template <> struct Name<checkpoint::Unpacker> { static constexpr char const* v = "Unpacker"; };
template <> struct Name<checkpoint::UnpackerIO> { static constexpr char const* v = "UnpackerIO"; };
template <typename T> struct Name<checkpoint::StreamPacker<T>> { static constexpr char const* v = "StreamPacker"; };
template <typename T> struct Name<checkpoint::StreamUnpacker<T>> { static constexpr char const* v = "StreamUnpacker"; };
template <int I> struct Name<Trav<I>> { static constexpr char const* v = I == 0 ? "T0" : I == 1 ? "T1" : I == 2 ? "T2" : "T3"; };

// ---------------------------------------------------------------- hierarchies
struct TuOps;
inline Node lv(std::vector<Node> k) { Node r; r.t = "lv"; r.k = std::move(k); return r; }
struct Shown { virtual void show(Node&) const = 0; virtual void build(Node const&, TuOps&) = 0; virtual char const* cname() const = 0; virtual ~Shown() = default; };
template <typename T> Node showPtr(T const* p) {
  Node r; r.t = "ptr";
  if (p) { Node o; o.t = "po"; o.v = p->cname(); p->show(o); r.k.push_back(o); }
  return r;
}
inline std::int32_t field(Node const& n, int level) { return vt::make<std::int32_t>(n.k.at(level).k.at(0)); }

struct A0; struct B0; struct C0;
struct TuOps {
  virtual ~TuOps() = default;
  virtual A0* newA(std::string const& c) = 0;
  virtual B0* newB(std::string const& c) = 0;
  virtual C0* newC(std::string const& c) = 0;
  virtual std::uint32_t typeId(int t) = 0;
  virtual std::string typeName(int t) = 0;
  virtual std::vector<std::uint32_t> many() = 0;
  virtual std::string ser(int t, Node&) = 0;
  virtual Node de(int t, char* image) = 0;
  virtual int clsIdx(std::string const& c) = 0;
  // polymorphic: h hierarchy, m transport
  virtual std::string pser(char h, char m, Node const&) = 0;
  virtual Node pde(char h, char m, std::string const& image) = 0;
  virtual Node pin(char h, char m, std::string const& image, Node const& over) = 0;
  virtual void inst(int j) = 0;
  virtual std::string trav(int j, char h, Node const&) = 0;
};

#define RG_SER(CLS, NAME, BODY) \
  template <typename S> void serialize(S& s) { rg::visits.push_back({NAME, rg::Name<S>::v}); BODY; }
#define RG_NAME(NAME) char const* cname() const override { return NAME; }

// --- A: inheritance from the library's templates
struct A0 : checkpoint::SerializableBase<A0>, Shown {
  std::int32_t a = 0;
  RG_NAME("A0")
  void show(Node& r) const override { r.k.push_back(lv({vt::proj(a)})); }
  void build(Node const& n, TuOps&) override { a = field(n, 0); }
  RG_SER(A0, "A0", s | a)
};
struct A1 : checkpoint::SerializableDerived<A1, A0> {
  std::int32_t a1 = 0; std::unique_ptr<B0> kid;
  RG_NAME("A1")
  void show(Node& r) const override; void build(Node const& n, TuOps&) override;
  RG_SER(A1, "A1", s | a1; s | kid)
};
struct A2 : checkpoint::SerializableDerived<A2, A1> {
  std::int64_t a2 = 0;
  RG_NAME("A2")
  void show(Node& r) const override { A1::show(r); r.k.push_back(lv({vt::proj((std::int32_t)a2)})); }
  void build(Node const& n, TuOps& t) override { A1::build(n, t); a2 = field(n, 2); }
  RG_SER(A2, "A2", s | a2)
};
struct A3 : checkpoint::SerializableDerived<A3, A0> {
  std::int16_t a3 = 0;
  RG_NAME("A3")
  void show(Node& r) const override { A0::show(r); r.k.push_back(lv({vt::proj((std::int32_t)a3)})); }
  void build(Node const& n, TuOps& t) override { A0::build(n, t); a3 = (std::int16_t)field(n, 1); }
  RG_SER(A3, "A3", s | a3)
};
struct A4 : checkpoint::SerializableDerived<A4, A2> {
  std::int8_t a4 = 0;
  RG_NAME("A4")
  void show(Node& r) const override { A2::show(r); r.k.push_back(lv({vt::proj((std::int32_t)a4)})); }
  void build(Node const& n, TuOps& t) override { A2::build(n, t); a4 = (std::int8_t)field(n, 3); }
  RG_SER(A4, "A4", s | a4)
};
// --- B: macros
struct B0 : Shown {
  checkpoint_virtual_serialize_root()
  std::int32_t b = 0;
  RG_NAME("B0")
  void show(Node& r) const override { r.k.push_back(lv({vt::proj(b)})); }
  void build(Node const& n, TuOps&) override { b = field(n, 0); }
  RG_SER(B0, "B0", s | b)
};
struct B1 : B0 {
  checkpoint_virtual_serialize_derived_from(B0)
  std::int32_t b1 = 0; std::unique_ptr<A0> kid;
  RG_NAME("B1")
  void show(Node& r) const override { B0::show(r); r.k.push_back(lv({vt::proj(b1), showPtr(kid.get())})); }
  void build(Node const& n, TuOps& t) override { B0::build(n, t); b1 = field(n, 1); kid.reset(); if (!n.k[1].k.at(1).k.empty()) { auto& o = n.k[1].k[1].k[0]; kid.reset(t.newA(o.v)); kid->build(o, t); } }
  RG_SER(B1, "B1", s | b1; s | kid)
};
struct B2 : B0 {
  checkpoint_virtual_serialize_derived_from(B0)
  std::string b2;
  RG_NAME("B2")
  void show(Node& r) const override { B0::show(r); r.k.push_back(lv({vt::proj((std::int32_t)b2.size())})); }
  void build(Node const& n, TuOps& t) override { B0::build(n, t); b2.assign((std::size_t)field(n, 1), 'q'); }
  RG_SER(B2, "B2", s | b2)
};
struct B3 : B1 {
  checkpoint_virtual_serialize_derived_from(B1)
  std::int32_t b3 = 0;
  RG_NAME("B3")
  void show(Node& r) const override { B1::show(r); r.k.push_back(lv({vt::proj(b3)})); }
  void build(Node const& n, TuOps& t) override { B1::build(n, t); b3 = field(n, 2); }
  RG_SER(B3, "B3", s | b3)
};
// --- C: many siblings from templates
struct C0 : checkpoint::SerializableBase<C0>, Shown {
  std::int32_t c = 0;
  RG_NAME("C0")
  void show(Node& r) const override { r.k.push_back(lv({vt::proj(c)})); }
  void build(Node const& n, TuOps&) override { c = field(n, 0); }
  RG_SER(C0, "C0", s | c)
};
template <int I> struct CnName { static char const* get() { static std::string const s = "C" + std::to_string(I); return s.c_str(); } };
template <int I> struct Cn : checkpoint::SerializableDerived<Cn<I>, C0> {
  std::array<std::int32_t, I % 5 + 1> pad{}; std::int32_t n = 0;
  char const* cname() const override { return CnName<I>::get(); }
  void show(Node& r) const override { C0::show(r); r.k.push_back(lv({vt::proj(n)})); }
  void build(Node const& x, TuOps& t) override { C0::build(x, t); n = field(x, 1); }
  template <typename S> void serialize(S& s) { rg::visits.push_back({CnName<I>::get(), rg::Name<S>::v}); s | pad; s | n; }
};
inline void A1::show(Node& r) const { A0::show(r); r.k.push_back(lv({vt::proj(a1), showPtr(kid.get())})); }
inline void A1::build(Node const& n, TuOps& t) { A0::build(n, t); a1 = field(n, 1); kid.reset(); if (!n.k[1].k.at(1).k.empty()) { auto& o = n.k[1].k[1].k[0]; kid.reset(t.newB(o.v)); kid->build(o, t); } }

// ---------------------------------------------------------------- plain types
template <int I> struct Lt { std::int32_t x = 0; template <typename S> void serialize(S& s) { s | x; } };
template <int I> struct U { std::int32_t x = 0; std::string y; template <typename S> void serialize(S& s) { s | x; s | y; }
  using vt_is_user = void;
  static U mk(Node const& n) { U u; u.x = vt::make<std::int32_t>(n.k.at(0)); u.y = vt::make<std::string>(n.k.at(1)); return u; }
  void pr(Node& r) const { r.k.push_back(vt::proj(x)); r.k.push_back(vt::proj(y)); }
};
enum struct Color : std::uint8_t { red, blue };
} // namespace rg

// ---------------------------------------------------------------- per translation unit
namespace {
template <typename T> std::string serOne(vt::Node& n) {
  T v = vt::make<T>(n); n = vt::proj(v); auto r = checkpoint::serialize<T>(v); return std::string(r->getBuffer(), r->getSize());
}
template <typename T> vt::Node deOne(char* p) { auto r = checkpoint::deserialize<T>(p); return vt::proj(*r); }
template <int First, int... I> void manyIds(std::vector<std::uint32_t>& out, std::integer_sequence<int, I...>) {
  (out.push_back(checkpoint::dispatch::typeregistry::getTypeIdx<rg::Lt<First + I>>()), ...);
}
// M: the transports this unit uses: 1 memory, 2 user buffer, 4 stream, 8 file
template <int M, typename P> std::string pserOne(char m, P& p) {
  if constexpr ((M & 2) != 0) if (m == 'u') {
    std::string buf; auto r = checkpoint::serialize<P>(p, [&](std::size_t n) { buf.assign(n, '\0'); return &buf[0]; });
    return std::string(r->getBuffer(), r->getSize());
  }
  if constexpr ((M & 8) != 0) if (m == 'f') {
    checkpoint::serializeToFile<P>(p, rg::scratchFile); std::ifstream f(rg::scratchFile, std::ios::binary); std::stringstream s; s << f.rdbuf(); ::unlink(rg::scratchFile.c_str()); return s.str();
  }
  if constexpr ((M & 4) != 0) if (m == 's') { std::stringstream s; checkpoint::serializeToStream<P>(p, static_cast<std::ostream&>(s)); return s.str(); }
  if constexpr ((M & 1) != 0) if (m == 'm') { auto r = checkpoint::serialize<P>(p); return std::string(r->getBuffer(), r->getSize()); }
  exit(97);
}
template <int M, typename P> P pdeOne(char m, std::string const& image) {
  if constexpr ((M & 8) != 0) if (m == 'f') {
    { std::ofstream f(rg::scratchFile, std::ios::binary); f.write(image.data(), (std::streamsize)image.size()); }
    auto r = checkpoint::deserializeFromFile<P>(rg::scratchFile); ::unlink(rg::scratchFile.c_str()); return std::move(*r);
  }
  if constexpr ((M & 4) != 0) if (m == 's') { std::stringstream s(image); auto r = checkpoint::deserializeFromStream<P>(static_cast<std::istream&>(s)); return std::move(*r); }
  if constexpr ((M & 3) != 0) if (m == 'm' || m == 'u') {
    Guarded g(image.size()); memcpy(g.data, image.data(), image.size());
    auto r = checkpoint::deserialize<P>(g.data); return std::move(*r);
  }
  exit(97);
}
template <int M, typename P> void pinOne(char m, std::string const& image, P& p) {
  if constexpr ((M & 4) != 0) if (m == 's') { std::stringstream s(image); checkpoint::deserializeInPlaceFromStream<P>(static_cast<std::istream&>(s), &p); return; }
  if constexpr ((M & 3) != 0) if (m == 'm' || m == 'u') {
    Guarded g(image.size()); memcpy(g.data, image.data(), image.size());
    checkpoint::deserializeInPlace<P>(g.data, &p); return;
  }
  exit(97);
}
template <int J, typename P> std::string travOne(P& p) {
  auto t = checkpoint::dispatch::Traverse::with<P, rg::Trav<J>>(p); return t.bytes;
}
}
