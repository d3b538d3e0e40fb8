// Types the library can only footprint.
#pragma once
#include "types.h"
#include <atomic>
#include <functional>
#include <stack>
#include <thread>
namespace vt {
struct Opaque { double x = 0; std::int16_t y = 0; std::vector<int> hidden; };   // not serializable at all
template <typename A> struct Conv<std::shared_ptr<A>> {
  static std::shared_ptr<A> make(Node const& n) { if (n.k.empty()) return nullptr; return std::shared_ptr<A>(new A(vt::make<A>(n.k[0]))); }
  static Node proj(std::shared_ptr<A> const& p) { Node r; r.t = "ptr"; if (p) r.k.push_back(vt::proj<A>(*p)); return r; }
};
// owns a raw pointer that its serialize function hands to the library as it is
template <typename A> struct Raw {
  A* p = nullptr; using vt_is_user = void;
  Raw() = default; Raw(Raw&& o) : p(o.p) { o.p = nullptr; } ~Raw() { delete p; }
  static Raw mk(Node const& n) { Raw r; if (!n.k.at(0).k.empty()) r.p = new A(vt::make<A>(n.k[0].k[0])); return r; }
  void pr(Node& r) const { Node x; x.t = "ptr"; if (p) x.k.push_back(vt::proj<A>(*p)); r.k.push_back(x); }
  template <typename S> void serialize(S& s) { s | p; }
};
template <typename P> struct PtrLeaf {     // void*, FILE*
  P p = nullptr; using vt_is_user = void;
  static PtrLeaf mk(Node const& n) { PtrLeaf r; if (n.k.at(0).n) r.p = (P)(void*)stdout; return r; }
  void pr(Node& r) const { Node x; x.t = "b"; x.n = p != nullptr; r.k.push_back(x); }
  template <typename S> void serialize(S& s) { s | p; }
};
template <typename T> struct Conv<std::stack<T>> {
  static auto make(Node const& n) { std::stack<T> q; for (auto& e : n.k) q.push(vt::make<T>(e)); return q; }
  struct Open : std::stack<T> { static auto const& cont(std::stack<T> const& q) { return q.*(&Open::c); } };
  static Node proj(std::stack<T> const& q) { return projSeq(Open::cont(q), "seq"); }
};
template <typename T> struct Conv<std::priority_queue<T>> {
  static auto make(Node const& n) { std::priority_queue<T> q; for (auto& e : n.k) q.push(vt::make<T>(e)); return q; }
  struct Open : std::priority_queue<T> { static auto const& cont(std::priority_queue<T> const& q) { return q.*(&Open::c); } };
  static Node proj(std::priority_queue<T> const& q) { return projSeq(Open::cont(q), "seq"); }
};
template <typename T> struct Whole {       // holds something that cannot be copied or moved
  std::unique_ptr<T> h = std::make_unique<T>(); using vt_is_user = void;
  static Whole mk(Node const&) { return Whole{}; }
  void pr(Node& r) const { Node x; x.t = "b"; r.k.push_back(x); }
  template <typename S> void serialize(S& s) { s | *h; }
};
template <> struct Conv<Opaque> { static Opaque make(Node const&) { return {}; } static Node proj(Opaque const&) { Node r; r.t = "b"; return r; } };
using Func = std::function<int(std::string, double)>;
template <> struct Conv<Func> {
  static Func make(Node const& n) { if (n.n) return [](std::string, double) { return 1; }; return {}; }
  static Node proj(Func const& f) { Node r; r.t = "b"; r.n = !!f; return r; }
};
} // namespace vt
