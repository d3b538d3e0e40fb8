#pragma once
#include <Kokkos_Core.hpp>
#include <vector>
namespace Kokkos { namespace Experimental {
// A growable rank-1 view: chunks of a power of two, up to a maximal extent.
template <typename DataType, typename... P>
struct DynamicView : ViewTraits<DataType, P...> {
  using traits = ViewTraits<DataType, P...>;
  using typename traits::array_layout; using typename traits::value_type; using typename traits::size_type;
  static constexpr std::size_t rank = 1;
  using HostMirror = DynamicView;
  struct State { std::string label; std::size_t chunk, maxChunks, size = 0; std::vector<std::unique_ptr<value_type[]>> chunks; };
  std::shared_ptr<State> s_;
  DynamicView() = default;
  explicit DynamicView(std::string const& label, unsigned minChunk, unsigned maxExtent) : s_(std::make_shared<State>()) {
    s_->label = label; s_->chunk = 1; while (s_->chunk < minChunk) s_->chunk *= 2;
    s_->maxChunks = (maxExtent + s_->chunk - 1) / s_->chunk;
  }
  template <typename I> void resize_serial(I const& n) {
    std::size_t want = (std::size_t(n) + s_->chunk - 1) / s_->chunk;
    if (want > s_->maxChunks) Standin::fail("DynamicView::resize_serial beyond the maximal extent");
    while (s_->chunks.size() < want) s_->chunks.emplace_back(new value_type[s_->chunk]());
    while (s_->chunks.size() > want) s_->chunks.pop_back();
    s_->size = n;
  }
  std::size_t chunk_size() const { return s_->chunk; }
  std::size_t allocation_extent() const { return s_->chunks.size() * s_->chunk; }
  size_type size() const { return s_ ? s_->size : 0; }
  size_type extent(std::size_t i) const { return i == 0 ? size() : 1; }
  size_type span() const { return 0; }
  bool span_is_contiguous() const { return false; }
  value_type* data() const { return nullptr; }
  std::string label() const { return s_ ? s_->label : std::string(); }
  bool is_allocated() const { return bool(s_); }
  template <typename I> value_type& operator()(I i) const {
    if (std::size_t(i) >= s_->size) Standin::fail("DynamicView index out of bounds");
    return s_->chunks[std::size_t(i) / s_->chunk][std::size_t(i) % s_->chunk];
  }
};
}} // namespace Kokkos::Experimental
