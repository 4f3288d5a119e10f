#ifndef VERIF_AR_EDGE_OPS_H_
#define VERIF_AR_EDGE_OPS_H_
#include <map>
#include <utility>
#include <vector>
#include "absl/container/flat_hash_map.h"
#include "absl/status/statusor.h"
#include "arolla/dense_array/edge.h"
#include "arolla/dense_array/ops/dense_group_ops.h"
#include "arolla/dense_array/ops/dense_ops.h"
#include "arolla/qexpr/eval_context.h"
namespace arolla {
struct DenseArrayExpandOp {
  template <typename T> absl::StatusOr<DenseArray<T>> operator()(EvaluationContext*, const DenseArray<T>& a, const DenseArrayEdge& edge) const {
    if (a.size() != edge.parent_size()) return SizeMismatchError({edge.parent_size(), a.size()});
    auto e = edge.ToMappingEdge();
    DenseArrayBuilder<T> b(edge.child_size());
    e.edge_values().ForEachPresent([&](int64_t i, int64_t p) { if (a.present(p)) b.Set(i, a.values[p]); });
    return std::move(b).Build();
  }
};
struct DenseArrayEdgeSizesOp {
  absl::StatusOr<DenseArray<int64_t>> operator()(EvaluationContext*, const DenseArrayEdge& e) const {
    std::vector<int64_t> r(e.parent_size(), 0);
    auto m = e.ToMappingEdge();
    m.edge_values().ForEachPresent([&](int64_t, int64_t p) { ++r[p]; });
    return DenseArray<int64_t>{Buffer<int64_t>::Create(std::move(r))};
  }
};
struct DenseArrayEdgeFromSizesOp {
  absl::StatusOr<DenseArrayEdge> operator()(EvaluationContext*, const DenseArray<int64_t>& s) const {
    std::vector<int64_t> sp{0};
    for (int64_t i = 0; i < s.size(); ++i) { if (!s.present(i)) return absl::InvalidArgumentError("operator edge.from_sizes expects no missing size values"); sp.push_back(sp.back() + s.values[i]); }
    return DenseArrayEdge::FromSplitPoints({Buffer<int64_t>::Create(std::move(sp))});
  }
};
struct DenseArrayGroupByOp {
  template <typename T> absl::StatusOr<DenseArrayEdge> operator()(EvaluationContext*, const DenseArray<T>& v, const DenseArrayEdge& over) const {
    if (v.size() != over.child_size()) return SizeMismatchError({over.child_size(), v.size()});
    auto m = over.ToMappingEdge();
    DenseArrayBuilder<int64_t> b(v.size());
    int64_t next = 0;
    std::vector<absl::flat_hash_map<T, int64_t>> ids(over.parent_size());
    for (int64_t i = 0; i < v.size(); ++i) {
      if (!v.present(i) || !m.edge_values().present(i)) continue;
      auto [it, is_new] = ids[m.edge_values().values[i]].try_emplace(T(v.values[i]), next);
      next += is_new;
      b.Set(i, it->second);
    }
    return DenseArrayEdge::UnsafeFromMapping(std::move(b).Build(), next);
  }
};
}
#endif
