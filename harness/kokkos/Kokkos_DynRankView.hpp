#pragma once
#include <Kokkos_Core.hpp>
namespace Kokkos {
// A view whose rank (0..7) is a run-time value.
template <typename T, typename... P>
struct DynRankView : ViewTraits<T, P...> {
  using traits = ViewTraits<T, P...>;
  using typename traits::array_layout; using typename traits::value_type; using typename traits::size_type; using typename traits::memory_space;
  using typename traits::non_const_value_type;
  using HostMirror = DynRankView<non_const_value_type, array_layout, HostSpace>;
  using Track = std::shared_ptr<Standin::Allocation<non_const_value_type>>;
  Track track_;
  value_type* data_ = nullptr;
  Standin::Map map_;           // rank and extents; unallocated: rank 0, size 0

  DynRankView() = default;
  DynRankView(std::string const& label, array_layout const& l) { alloc(label, l, true); }
  DynRankView(char const* label, array_layout const& l) { alloc(label, l, true); }
  template <typename A> DynRankView(Standin::LabelProp<A> const& p, array_layout const& l) { alloc(p.label, l, p.init); }
  template <typename... I, typename = std::enable_if_t<(std::is_integral_v<I> && ...)>>
  explicit DynRankView(std::string const& label, I... n) { alloc(label, array_layout(std::size_t(n)...), true); }
  template <typename... I, typename = std::enable_if_t<(std::is_integral_v<I> && ...)>>
  explicit DynRankView(char const* label, I... n) { alloc(label, array_layout(std::size_t(n)...), true); }
  template <typename U, typename... Q, typename = std::enable_if_t<
    std::is_convertible_v<U*, T*> && std::is_same_v<typename DynRankView<U, Q...>::memory_space, memory_space> && !std::is_same_v<DynRankView<U, Q...>, DynRankView>>>
  DynRankView(DynRankView<U, Q...> const& o) : track_(o.track_), data_(o.data_), map_(o.map_) {}

  unsigned rank() const { return unsigned(map_.rank); }
  size_type extent(std::size_t i) const { return i < map_.rank ? map_.ext[i] : 1; }
  size_type stride(std::size_t i) const { return map_.str[i]; }
  size_type size() const { return data_ ? map_.size() : 0; }
  size_type span() const { return data_ ? map_.span() : 0; }
  bool span_is_contiguous() const { return span() == size(); }
  bool is_allocated() const { return data_ != nullptr; }
  int extent_int(std::size_t i) const { return int(extent(i)); }
  int use_count() const { return int(track_.use_count()); }
  value_type* data() const { return data_; }
  std::string label() const { return track_ ? track_->label : std::string(); }
  array_layout layout() const { return map_.template layout<array_layout>(map_.rank); }
  template <typename... I> value_type& operator()(I... i) const {
    std::size_t idx[sizeof...(I) + 1] = {std::size_t(i)...};
    std::size_t n = sizeof...(I);
    while (n > map_.rank) if (idx[--n] != 0) Standin::fail("index beyond the rank");      // trailing zeros are allowed
    return data_[map_.at(idx, n)];
  }
private:
  void alloc(std::string const& label, array_layout const& l, bool init) {
    std::size_t r = 0;
    while (r < 8 && l.dimension[r] != KOKKOS_IMPL_CTOR_DEFAULT_ARG) r++;
    if (r > 7) Standin::fail("rank above seven");
    map_.rank = r;
    for (std::size_t i = 0; i < r; i++) map_.ext[i] = l.dimension[i];
    map_.fill(&l);
    track_ = std::make_shared<Standin::Allocation<non_const_value_type>>(label, map_.span(), traits::is_dev, init);
    data_ = track_->data;
  }
};
template <typename T, typename... P> auto create_mirror_view(DynRankView<T, P...> const& v) {
  using M = typename DynRankView<T, P...>::HostMirror;
  if constexpr (!DynRankView<T, P...>::is_dev && !std::is_const_v<T>) return M(v); else return M(v.label(), v.layout());
}
template <typename T, typename... P> auto create_mirror_view(WithoutInitializing_t, DynRankView<T, P...> const& v) {
  using M = typename DynRankView<T, P...>::HostMirror;
  if constexpr (!DynRankView<T, P...>::is_dev && !std::is_const_v<T>) return M(v); else return M(view_alloc(WithoutInitializing, v.label()), v.layout());
}
template <typename T, typename... P> auto create_mirror(DynRankView<T, P...> const& v) { return typename DynRankView<T, P...>::HostMirror(v.label(), v.layout()); }
template <typename T, typename... P> unsigned rank(DynRankView<T, P...> const& v) { return v.rank(); }
template <typename T, typename... P, typename U, typename... Q>
void deep_copy(DynRankView<T, P...> const& dst, DynRankView<U, Q...> const& src) {
  if (dst.size() == 0 && src.size() == 0) return;
  Standin::copyElements(dst.data(), dst.map_, src.data(), src.map_);
}
template <typename S, typename T, typename... P, typename U, typename... Q>
std::enable_if_t<is_space_arg<S>::value> deep_copy(S const&, DynRankView<T, P...> const& dst, DynRankView<U, Q...> const& src) { deep_copy(dst, src); }
template <typename S, typename T, typename... P>
auto create_mirror_view_and_copy(S const&, DynRankView<T, P...> const& v) { auto m = create_mirror_view(v); if (v.data()) deep_copy(m, v); return m; }
} // namespace Kokkos
