#pragma once
#include <Kokkos_Core.hpp>
#include <vector>
namespace Kokkos {
template <typename DataType, typename Dev = DefaultExecutionSpace, typename Traits = void, typename SizeType = std::size_t>
struct StaticCrsGraph {
  using data_type = DataType; using size_type = SizeType;
  using entries_type = View<DataType*, LayoutRight, Dev>;
  using row_map_type = View<SizeType const*, LayoutRight, Dev>;
  using row_block_type = View<SizeType*, LayoutRight, Dev>;
  entries_type entries; row_map_type row_map; row_block_type row_block_offsets;
  size_type numRows() const { return row_map.extent(0) ? row_map.extent(0) - 1 : 0; }
};
template <typename G, typename R> G create_staticcrsgraph(std::string const& label, std::vector<std::vector<R>> const& in) {
  View<typename G::size_type*, LayoutRight> rows("row_map", in.size() + 1);
  std::size_t n = 0;
  for (std::size_t i = 0; i < in.size(); i++) { rows(i) = n; n += in[i].size(); }
  rows(in.size()) = n;
  G g; g.entries = typename G::entries_type(label, n); g.row_map = rows;
  n = 0;
  for (auto& r : in) for (auto& x : r) g.entries(n++) = x;
  return g;
}
} // namespace Kokkos
