// Many small, equally shaped types, at low compile-time cost.
#pragma once
#include "ops.h"
namespace vt {
template <int I> struct Lt { std::int32_t x = 0; template <typename S> void serialize(S& s) { s | x; } };
template <typename T> struct LightOps : TypeOps {
  static T& ref(void* p) { return *static_cast<T*>(p); }
  std::size_t sizeOf() const override { return sizeof(T); }
  std::size_t alignOf() const override { return alignof(T); }
  void* make(Node const& n) const override { auto t = new T; t->x = vt::make<std::int32_t>(n.k.at(0)); return t; }
  Node proj(void const* p) const override { Node r; r.t = "tup"; r.k.push_back(vt::proj(static_cast<T const*>(p)->x)); return r; }
  void destroy(void* p) const override { delete static_cast<T*>(p); }
  void destruct(void*) const override {}
  std::size_t size(void* p) const override { return checkpoint::getSize<T>(ref(p)); }
  checkpoint::SerializedReturnType ser(void* p, checkpoint::BufferCallbackType f) const override { return checkpoint::serialize<T>(ref(p), f); }
  void* deser(char* b) const override { return checkpoint::deserialize<T>(b).release(); }
  void deserIn(char* b, void* p) const override { checkpoint::deserializeInPlace<T>(b, &ref(p)); }
  std::size_t footprint(void*, std::size_t) const override { abort(); }
  void* deserRet(checkpoint::SerializedReturnType&&) const override { abort(); }
  void* deserObj(char*, char*) const override { abort(); }
  void toFile(void*, std::string const&) const override { abort(); }
  void* fromFile(std::string const&) const override { abort(); }
  void fromFileIn(std::string const&, void*) const override { abort(); }
  void toStream(void*, AnyStream&) const override { abort(); }
  void* fromStream(AnyStream&) const override { abort(); }
  void fromStreamIn(AnyStream&, void*) const override { abort(); }
};
template <int First, int N> struct RegisterLights {
  template <int... I> static void reg(std::integer_sequence<int, I...>) {
    (typeTable().emplace_back(First + I, new LightOps<Lt<First + I>>), ...);
  }
  RegisterLights() { reg(std::make_integer_sequence<int, N>{}); }
};
}
