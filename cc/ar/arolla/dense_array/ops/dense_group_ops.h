#ifndef VERIF_AR_DENSE_GROUP_OPS_H_
#define VERIF_AR_DENSE_GROUP_OPS_H_
#include <map>
#include <utility>
#include <vector>
#include "absl/status/statusor.h"
#include "arolla/dense_array/edge.h"
#include "arolla/dense_array/ops/dense_ops.h"
#include "arolla/qexpr/aggregation_ops_interface.h"
namespace arolla {
template <typename Acc> class DenseGroupOps {
  using R = strip_optional_t<typename Acc::result_type>;
 public:
  template <typename... A> explicit DenseGroupOps(RawBufferFactory*, A&&... a) : acc_(std::forward<A>(a)...) {}
  template <typename... D> absl::StatusOr<DenseArray<R>> Apply(const DenseArrayEdge& e, const D&... d) const { return Run(typename Acc::child_types(), e, d...); }
 private:
  template <typename... C, typename... D> absl::StatusOr<DenseArray<R>> Run(meta::type_list<C...>, const DenseArrayEdge& edge, const D&... d) const {
    int64_t n = edge.child_size(); bool ok = true;
    ((ok &= d.size() == n), ...);
    if (!ok) return SizeMismatchError({n, d.size()...});
    auto e = edge.ToMappingEdge();
    std::vector<std::vector<int64_t>> rows(edge.parent_size());
    for (int64_t i = 0; i < n; ++i) if (e.edge_values().present(i)) rows[e.edge_values().values[i]].push_back(i);
    Acc acc = acc_;
    DenseArrayBuilder<R> b(Acc::IsAggregator() ? edge.parent_size() : n);
    for (int64_t p = 0; p < edge.parent_size(); ++p) {
      acc.Reset();
      std::vector<int64_t> used;
      for (int64_t i : rows[p]) {
        if (!((is_optional_v<C> || d.present(i)) && ...)) continue;
        acc.Add(verif_ar::ArgOf<C>(d, i)...);
        if constexpr (Acc::IsPartial()) b.Set(i, acc.GetResult());
        if constexpr (Acc::IsFull()) used.push_back(i);
      }
      if constexpr (Acc::IsAggregator()) b.Set(p, acc.GetResult());
      if constexpr (Acc::IsFull()) { acc.FinalizeFullGroup(); for (int64_t i : used) b.Set(i, acc.GetResult()); }
      auto s = acc.GetStatus(); if (!s.ok()) return s;
    }
    return std::move(b).Build();
  }
  Acc acc_;
};
}
#endif
