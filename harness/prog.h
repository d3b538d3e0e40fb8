// A class whose serialize function is a program chosen at run time, per pass, so that
// misbehaving user code, user exceptions and crashes can be put at any point of any
// operation. Controlled by pctl.
#pragma once
#include "types.h"
#include <exception>
#include <unistd.h>

namespace vt {
struct ProgCtl {
  std::string prog[3];     // size, pack, unpack programs of the victim
  int victim = -1;         // which visit (per pass) runs them; -1: none, -2: all
  int crashAt = -1;        // field step of the packing pass at which the process dies
  int throwPass = -1, throwAt = -1;
  int visits[4] = {0, 0, 0, 0}, steps[4] = {0, 0, 0, 0};
  void begin() { for (int& v : visits) v = 0; for (int& v : steps) v = 0; }
  void clear() { *this = ProgCtl(); }
};
extern ProgCtl pctl;
struct UserError : std::exception { char const* what() const noexcept override { return "user error"; } };

struct Prog {
  std::int32_t c = 0; std::int8_t a = 1; std::uint8_t b = 2; float d = 3.5f; std::string e = "xyz"; Box<std::int32_t> f; std::int16_t g[4] = {1, 2, 3, 4}; double h = 2;
  using vt_is_user = void;
  Prog() = default;
  static Prog mk(Node const& n) { Prog p; p.c = vt::make<std::int32_t>(n.k.at(0)); return p; }
  void pr(Node& r) const { r.k.push_back(vt::proj(c)); }
  friend bool operator<(Prog const& x, Prog const& y) { return x.c < y.c; }
  friend bool operator==(Prog const& x, Prog const& y) { return x.c == y.c; }
  template <typename S> static int pass(S& s) { return s.isSizing() ? 0 : s.isPacking() ? 1 : s.isUnpacking() ? 2 : 3; }
  template <typename S> void serialize(S& s) {
    int const ps = pass(s);
    int const visit = pctl.visits[ps]++;
    static std::string const normal = "ce";
    std::string const prog = ps < 3 && (pctl.victim == visit || pctl.victim == -2) ? pctl.prog[ps] : normal;
    for (char x : prog) {
      int const step = pctl.steps[ps]++;
      if (ps == 1 && step == pctl.crashAt) _exit(77);
      if (ps == pctl.throwPass && step == pctl.throwAt) throw UserError();
      switch (x) {
        case 'a': s | a; break;
        case 'b': s | b; break;
        case 'c': s | c; break;
        case 'd': s | d; break;
        case 'e': s | e; break;
        case 'f': s | f; break;
        case '2': checkpoint::dispatch::serializeArray(s, g, 2); break;
        case '3': checkpoint::dispatch::serializeArray(s, g, 3); break;
        case 'h': s | h; break;
        default: exit(97);
      }
    }
  }
};

// the same inside a class hierarchy
struct ProgBase : checkpoint::SerializableBase<ProgBase> {
  ProgBase() = default;
  explicit ProgBase(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  virtual ~ProgBase() = default;
  virtual Prog const* get() const { return nullptr; }
  template <typename S> void serialize(S&) { }
};
struct ProgDer : checkpoint::SerializableDerived<ProgDer, ProgBase> {
  Prog q;
  ProgDer() = default;
  explicit ProgDer(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  Prog const* get() const override { return &q; }
  template <typename S> void serialize(S& s) { s | q; }
};
struct ProgPoly {
  std::unique_ptr<ProgBase> p;
  using vt_is_user = void;
  static ProgPoly mk(Node const& n) { ProgPoly r; auto x = std::make_unique<ProgDer>(); x->q = Prog::mk(n.k.at(0)); r.p = std::move(x); return r; }
  void pr(Node& r) const { r.k.push_back(p && p->get() ? vt::proj(*p->get()) : Node{}); }
  template <typename S> void serialize(S& s) { s | p; }
};
} // namespace vt
