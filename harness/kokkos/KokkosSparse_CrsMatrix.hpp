#pragma once
#include <Kokkos_StaticCrsGraph.hpp>
namespace KokkosSparse {
template <typename Scalar, typename Ordinal, typename Dev, typename Traits = void, typename SizeType = std::size_t>
struct CrsMatrix {
  using StaticCrsGraphType = Kokkos::StaticCrsGraph<Ordinal, Dev, void, SizeType>;
  using values_type = Kokkos::View<Scalar*, Kokkos::LayoutRight, Dev>;
  StaticCrsGraphType graph; values_type values;
  Ordinal cols_ = 0;
  CrsMatrix() = default;
  CrsMatrix(std::string const&, Ordinal ncols, values_type const& v, StaticCrsGraphType const& g) : graph(g), values(v), cols_(ncols) {}
  CrsMatrix(std::string const& label, Ordinal nrows, Ordinal ncols, SizeType nnz, Scalar* val, Ordinal* rows, Ordinal* cols) : cols_(ncols) {
    Kokkos::View<SizeType*, Kokkos::LayoutRight, Dev> r(label + "_rows", nrows + 1);
    graph.entries = typename StaticCrsGraphType::entries_type(label, nnz);
    values = values_type(label + "_values", nnz);
    for (Ordinal i = 0; i <= nrows; i++) r(i) = rows[i];
    for (SizeType i = 0; i < nnz; i++) { graph.entries(i) = cols[i]; values(i) = val[i]; }
    graph.row_map = r;
  }
  Ordinal numRows() const { return Ordinal(graph.numRows()); }
  Ordinal numCols() const { return cols_; }
  SizeType nnz() const { return graph.entries.extent(0); }
  struct Row { CrsMatrix const* m; SizeType b; int length; Ordinal& colidx(int i) const { return m->graph.entries(b + i); } Scalar& value(int i) const { return m->values(b + i); } };
  Row row(Ordinal i) const { return {this, graph.row_map(i), int(graph.row_map(i + 1) - graph.row_map(i))}; }
  Row rowConst(Ordinal i) const { return row(i); }
};
} // namespace KokkosSparse
