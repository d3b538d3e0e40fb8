// User-defined traversals: plain, typed, and with a dispatcher of their own that observes every
// consultation and can intercept the objects of one type.
#pragma once
#include "types.h"
#include <map>
#include <string>
#include <typeindex>

namespace tv {
using vt::Node;
std::map<std::type_index, std::string>& names();
struct RegisterName { RegisterName(std::type_index t, char const* n) { names()[t] = n; } };

struct Open { std::string name; std::size_t s = 0, e = 0; bool stopped = false; };
struct Log {
  std::string bytes; std::vector<Open> opens; bool same = true; std::string stop; bool moded = false;
};

template <typename S, typename T> struct Obs;
// what all of them share: the log is outside, so nothing is lost if the traverser is copied
struct Common : checkpoint::BaseSerializer {
  Log* log; void* self;
  explicit Common(Log* l) : checkpoint::BaseSerializer(ModeType::None), log(l), self(this) {}
  void check() { if (self != (void*)this) log->same = false; }
};
struct Plain : Common {
  using Common::Common;
  void contiguousBytes(void* p, checkpoint::SerialSizeType size, checkpoint::SerialSizeType n) { check(); log->bytes.append((char const*)p, size * n); }
};
struct Typed : Common {
  using Common::Common;
  template <typename S, typename T> void contiguousTyped(S& s, T* p, checkpoint::SerialSizeType n) {
    check(); s.check(); log->bytes.append((char const*)p, sizeof(T) * n);
  }
};
struct Observer : Common {
  using Common::Common;
  template <typename S, typename T> using DispatcherType = Obs<S, T>;
  void contiguousBytes(void* p, checkpoint::SerialSizeType size, checkpoint::SerialSizeType n) { check(); log->bytes.append((char const*)p, size * n); }
};
template <typename S, typename T> struct Obs {
  template <typename F> static void around(S& s, F f) {
    s.check();
    auto it = names().find(std::type_index(typeid(T)));
    std::string nm = it == names().end() ? "?" : it->second;
    std::size_t at = s.log->opens.size();
    Open o; o.name = nm; o.s = o.e = s.log->bytes.size(); o.stopped = nm == s.log->stop;
    s.log->opens.push_back(o);
    if (!o.stopped) f();
    s.log->opens[at].e = s.log->bytes.size();
  }
  static void serializeIntrusive(S& s, T& t) { around(s, [&] { t.serialize(s); }); }
  static void serializeNonIntrusive(S& s, T& t) { around(s, [&] { serialize(s, t); }); }
};

struct TravOps {
  virtual ~TravOps() = default;
  virtual void run(Node const& v, FILE* tr, int c, std::vector<std::string> const& stops) = 0;
};
std::map<int, TravOps*>& table();
struct RegisterType { RegisterType(int id, TravOps* o) { table()[id] = o; } };

void event(FILE* tr, int c, char const* how, Log const& l);
void image(FILE* tr, int c, char const* buf, std::size_t n, std::size_t framing, Node const& v);
struct Nothing { template <typename S> void serialize(S&) {} };

template <typename T> struct Ops : TravOps {
  template <typename Tr> static void three(T& x, FILE* tr, int c, char const* what, std::string const& stop) {
    std::string w = what;
    { Log l; l.stop = stop; Tr t(&l); auto& r = checkpoint::dispatch::Traverse::with(x, t); if (&r != &t) l.same = false; event(tr, c, (w + "-ref").c_str(), l); }
    { Log l; l.stop = stop; auto t = checkpoint::dispatch::Traverse::with<T, Tr>(x, &l); event(tr, c, (w + "-args").c_str(), l); }
    { Log l; l.stop = stop; Tr t(&l); using checkpoint::operator|; auto& r = t | x; if (&r != &t) l.same = false; event(tr, c, (w + "-pipe").c_str(), l); }
  }
  void run(Node const& v, FILE* tr, int c, std::vector<std::string> const& stops) override {
    auto x = std::make_unique<T>(vt::make<T>(v));
    Nothing none; auto f = checkpoint::serialize(none);
    { auto r = checkpoint::serialize<T>(*x); image(tr, c, r->getBuffer(), r->getSize(), f->getSize(), vt::proj<T>(*x)); }
    three<Plain>(*x, tr, c, "plain", "");
    three<Typed>(*x, tr, c, "typed", "");
    three<Observer>(*x, tr, c, "obs", "");
    for (auto& s : stops) { Log l; l.stop = s; Observer t(&l); checkpoint::dispatch::Traverse::with(*x, t); event(tr, c, "stop", l); }
    // a C array of two objects
    {
      auto y = std::unique_ptr<T, void (*)(T*)>(static_cast<T*>(::operator new(2 * sizeof(T))), [](T* p) { p[0].~T(); p[1].~T(); ::operator delete(p); });
      new (y.get()) T(vt::make<T>(v)); new (y.get() + 1) T(vt::make<T>(v));
      Log l; Observer t(&l); checkpoint::dispatch::Traverse::with(*y, t, 2); event(tr, c, "array", l);
    }
    // the object is what it was
    { auto r = checkpoint::serialize<T>(*x); image(tr, c, r->getBuffer(), r->getSize(), f->getSize(), vt::proj<T>(*x)); }
  }
};
} // namespace tv
