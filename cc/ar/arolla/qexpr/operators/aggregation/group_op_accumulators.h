#ifndef VERIF_AR_ACCUMULATORS_H_
#define VERIF_AR_ACCUMULATORS_H_
#include <optional>
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/aggregation_ops_interface.h"
namespace arolla {
template <typename T> class CollapseAccumulator : public Accumulator<AccumulatorType::kAggregator, OptionalValue<T>, meta::type_list<>, meta::type_list<T>> {
 public:
  void Reset() final { v_.reset(); same_ = true; }
  void Add(view_type_t<T> v) final { if (!v_) v_ = T(v); else if (!(view_type_t<T>(*v_) == v)) same_ = false; }
  OptionalValue<view_type_t<T>> GetResult() final { if (same_ && v_) return {true, view_type_t<T>(*v_)}; return std::nullopt; }
 private:
  std::optional<T> v_; bool same_ = true;
};
class SimpleCountAggregator : public Accumulator<AccumulatorType::kAggregator, int64_t, meta::type_list<>, meta::type_list<Unit>> {
 public:
  void Reset() final { n_ = 0; }
  void Add(Unit) final { ++n_; }
  int64_t GetResult() final { return n_; }
 private:
  int64_t n_ = 0;
};
class CountPartialAccumulator : public Accumulator<AccumulatorType::kPartial, int64_t, meta::type_list<>, meta::type_list<Unit>> {
 public:
  void Reset() final { n_ = 0; }
  void Add(Unit) final { ++n_; }
  int64_t GetResult() final { return n_; }
 private:
  int64_t n_ = 0;
};
}
#endif
