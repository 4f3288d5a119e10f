#ifndef VERIF_AR_ARRAY_OPS_H_
#define VERIF_AR_ARRAY_OPS_H_
#include "absl/status/statusor.h"
#include "absl/strings/str_format.h"
#include "arolla/dense_array/ops/dense_ops.h"
#include "arolla/qexpr/eval_context.h"
namespace arolla {
struct DenseArrayAtOp {
  template <typename T> DenseArray<T> operator()(EvaluationContext* ctx, const DenseArray<T>& a, const DenseArray<int64_t>& ix) const {
    DenseArrayBuilder<T> b(ix.size());
    ix.ForEachPresent([&](int64_t i, int64_t k) {
      if (k < 0 || k >= a.size()) ctx->set_status(absl::InvalidArgumentError(absl::StrFormat("array index %d out of range [0, %d)", k, a.size())));
      else if (a.present(k)) b.Set(i, a.values[k]);
    });
    return std::move(b).Build();
  }
};
struct DenseArrayPresentIndicesOp {
  DenseArray<int64_t> operator()(EvaluationContext*, const DenseArray<Unit>& a) const {
    std::vector<int64_t> r; for (int64_t i = 0; i < a.size(); ++i) if (a.present(i)) r.push_back(i);
    return {Buffer<int64_t>::Create(std::move(r))};
  }
};
struct DenseArrayFromIndicesAndValues {
  template <typename T> DenseArray<T> operator()(EvaluationContext* ctx, const DenseArray<int64_t>& ix, const DenseArray<T>& v, int64_t size) const {
    if (ix.size() != v.size()) { ctx->set_status(absl::InvalidArgumentError("indices and values must have the same size")); return CreateEmptyDenseArray<T>(size); }
    DenseArrayBuilder<T> b(size);
    int64_t last = -1;
    for (int64_t i = 0; i < ix.size(); ++i) {
      if (!ix.present(i) || ix.values[i] <= last || ix.values[i] >= size) { ctx->set_status(absl::InvalidArgumentError("bad indices")); return CreateEmptyDenseArray<T>(size); }
      last = ix.values[i];
      if (v.present(i)) b.Set(last, v.values[i]);
    }
    return std::move(b).Build();
  }
};
}
#endif
