#pragma once
#include <Kokkos_Core.hpp>
namespace Kokkos {
#if KOKKOS_VERSION_LESS(4, 4, 0)
template <typename T, std::size_t N, typename Proxy = void>
#else
template <typename T, std::size_t N>
#endif
struct Array {
  T m_internal_implementation_private_member_data[N];
  T& operator[](std::size_t i) { return m_internal_implementation_private_member_data[i]; }
  T const& operator[](std::size_t i) const { return m_internal_implementation_private_member_data[i]; }
  T* data() { return m_internal_implementation_private_member_data; }
  T const* data() const { return m_internal_implementation_private_member_data; }
  static constexpr std::size_t size() { return N; }
};
#if KOKKOS_VERSION_LESS(4, 4, 0)
template <typename T, typename Proxy> struct Array<T, 0, Proxy> {
#else
template <typename T> struct Array<T, 0> {
#endif
  T& operator[](std::size_t) { static T none{}; return none; }
  T const& operator[](std::size_t) const { static T none{}; return none; }
  T* data() { return nullptr; }
  T const* data() const { return nullptr; }
  static constexpr std::size_t size() { return 0; }
};
} // namespace Kokkos
