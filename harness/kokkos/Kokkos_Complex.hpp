#pragma once
namespace Kokkos {
template <typename T> class complex {
  T re_{}, im_{};
public:
  using value_type = T;
  complex() = default;
  complex(T const& r) : re_(r) {}
  complex(T const& r, T const& i) : re_(r), im_(i) {}
  T& real() { return re_; }
  T& imag() { return im_; }
  T real() const { return re_; }
  T imag() const { return im_; }
  void real(T v) { re_ = v; }
  void imag(T v) { im_ = v; }
  friend bool operator==(complex const& a, complex const& b) { return a.re_ == b.re_ && a.im_ == b.im_; }
  friend bool operator!=(complex const& a, complex const& b) { return !(a == b); }
};
} // namespace Kokkos
