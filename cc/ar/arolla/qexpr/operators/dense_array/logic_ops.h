#ifndef VERIF_AR_LOGIC_OPS_H_
#define VERIF_AR_LOGIC_OPS_H_
#include "absl/status/statusor.h"
#include "arolla/dense_array/ops/dense_ops.h"
#include "arolla/qexpr/eval_context.h"
namespace arolla {
struct DenseArrayHasOp { template <typename T> DenseArray<Unit> operator()(const DenseArray<T>& a) const { return a.ToMask(); } };
struct DenseArrayPresenceNotOp {
  template <typename T> DenseArray<Unit> operator()(EvaluationContext*, const DenseArray<T>& a) const {
    DenseArrayBuilder<Unit> b(a.size()); for (int64_t i = 0; i < a.size(); ++i) if (!a.present(i)) b.Set(i, Unit{}); return std::move(b).Build();
  }
};
struct DenseArrayPresenceAndOp {
  template <typename T> absl::StatusOr<DenseArray<T>> operator()(EvaluationContext*, const DenseArray<T>& a, const DenseArray<Unit>& m) const {
    if (a.size() != m.size()) return SizeMismatchError({a.size(), m.size()});
    DenseArrayBuilder<T> b(a.size()); for (int64_t i = 0; i < a.size(); ++i) if (a.present(i) && m.present(i)) b.Set(i, a.values[i]); return std::move(b).Build();
  }
};
struct DenseArrayPresenceOrOp {
  template <typename T> absl::StatusOr<DenseArray<T>> operator()(EvaluationContext*, const DenseArray<T>& x, const DenseArray<T>& y) const {
    if (x.size() != y.size()) return SizeMismatchError({x.size(), y.size()});
    DenseArrayBuilder<T> b(x.size());
    for (int64_t i = 0; i < x.size(); ++i) { if (x.present(i)) b.Set(i, x.values[i]); else if (y.present(i)) b.Set(i, y.values[i]); }
    return std::move(b).Build();
  }
};
}
#endif
