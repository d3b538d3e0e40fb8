// Type-erased access to the public API for one type of the universe.
#pragma once
#include "types.h"
#include "streams.h"
#include <sstream>
#include <iostream>

namespace vt {

struct TypeOps {
  virtual ~TypeOps() = default;
  virtual std::size_t sizeOf() const = 0;
  virtual std::size_t alignOf() const = 0;
  virtual void* make(Node const&) const = 0;
  virtual Node proj(void const*) const = 0;
  virtual void destroy(void*) const = 0;     // delete
  virtual void destruct(void*) const = 0;    // destructor only
  virtual std::size_t size(void*) const = 0;
  virtual std::size_t footprint(void*, std::size_t) const = 0;
  virtual checkpoint::SerializedReturnType ser(void*, checkpoint::BufferCallbackType) const = 0;
  virtual void* deser(char*) const = 0;
  virtual void* deserRet(checkpoint::SerializedReturnType&&) const = 0;
  virtual void* deserObj(char*, char*) const = 0;
  virtual void deserIn(char*, void*) const = 0;
  virtual void toFile(void*, std::string const&) const = 0;
  virtual void* fromFile(std::string const&) const = 0;
  virtual void fromFileIn(std::string const&, void*) const = 0;
  virtual void toStream(void*, AnyStream&) const = 0;
  virtual void* fromStream(AnyStream&) const = 0;
  virtual void fromStreamIn(AnyStream&, void*) const = 0;
};

#ifdef NO_OWN_STREAM
static constexpr bool own_stream = false;
#else
static constexpr bool own_stream = true;
#endif

// Mem: only the operations on memory
template <typename T, bool Own = own_stream, bool Mem = false> struct Ops : TypeOps {
  static T& ref(void* p) { return *static_cast<T*>(p); }
  std::size_t sizeOf() const override { return sizeof(T); }
  std::size_t alignOf() const override { return alignof(T); }
  void* make(Node const& n) const override { return new T(vt::make<T>(n)); }
  Node proj(void const* p) const override { return vt::proj<T>(*static_cast<T const*>(p)); }
  void destroy(void* p) const override { delete static_cast<T*>(p); }
  void destruct(void* p) const override { static_cast<T*>(p)->~T(); }
#ifndef NO_SER
  std::size_t size(void* p) const override { return checkpoint::getSize<T>(ref(p)); }
  checkpoint::SerializedReturnType ser(void* p, checkpoint::BufferCallbackType f) const override { return checkpoint::serialize<T>(ref(p), f); }
  void* deser(char* b) const override { return checkpoint::deserialize<T>(b).release(); }
  void* deserRet(checkpoint::SerializedReturnType&& r) const override { return checkpoint::deserialize<T>(std::move(r)).release(); }
  void* deserObj(char* b, char* o) const override { return checkpoint::deserialize<T>(b, o); }
  void deserIn(char* b, void* p) const override { checkpoint::deserializeInPlace<T>(b, &ref(p)); }
  void toFile(void* p, std::string const& f) const override { if constexpr (Mem) abort(); else checkpoint::serializeToFile<T>(ref(p), f); }
  void* fromFile(std::string const& f) const override { if constexpr (Mem) abort(); else return checkpoint::deserializeFromFile<T>(f).release(); }
  void fromFileIn(std::string const& f, void* p) const override { if constexpr (Mem) abort(); else checkpoint::deserializeInPlaceFromFile<T>(f, &ref(p)); }
#else
  std::size_t size(void*) const override { abort(); }
  checkpoint::SerializedReturnType ser(void*, checkpoint::BufferCallbackType) const override { abort(); }
  void* deser(char*) const override { abort(); }
  void* deserRet(checkpoint::SerializedReturnType&&) const override { abort(); }
  void* deserObj(char*, char*) const override { abort(); }
  void deserIn(char*, void*) const override { abort(); }
  void toFile(void*, std::string const&) const override { abort(); }
  void* fromFile(std::string const&) const override { abort(); }
  void fromFileIn(std::string const&, void*) const override { abort(); }
#endif
#ifdef WITH_FOOTPRINT
  std::size_t footprint(void* p, std::size_t o) const override { return checkpoint::getMemoryFootprint<T>(ref(p), o); }
#else
  std::size_t footprint(void*, std::size_t) const override { abort(); }
#endif
#ifdef WITH_STREAMS
  void toStream(void* p, AnyStream& s) const override {
    if constexpr (Mem) abort(); else s.template out<Own>([&](auto& st) { checkpoint::serializeToStream<T>(ref(p), st); });
  }
  void* fromStream(AnyStream& s) const override {
    void* r = nullptr;
    if constexpr (Mem) abort(); else s.template in<Own>([&](auto& st) { r = checkpoint::deserializeFromStream<T>(st).release(); });
    return r;
  }
  void fromStreamIn(AnyStream& s, void* p) const override {
    if constexpr (Mem) abort(); else s.template in<Own>([&](auto& st) { checkpoint::deserializeInPlaceFromStream<T>(st, &ref(p)); });
  }
#else
  void toStream(void*, AnyStream&) const override { abort(); }
  void* fromStream(AnyStream&) const override { abort(); }
  void fromStreamIn(AnyStream&, void*) const override { abort(); }
#endif
};

std::vector<std::pair<int, TypeOps*>>& typeTable();
struct RegisterType {
  RegisterType(int id, TypeOps* o) { typeTable().emplace_back(id, o); }
};

} // namespace vt
