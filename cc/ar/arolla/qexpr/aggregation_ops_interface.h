#ifndef VERIF_AR_AGG_INTERFACE_H_
#define VERIF_AR_AGG_INTERFACE_H_
#include "absl/status/status.h"
#include "arolla/util/meta.h"
#include "arolla/util/view_types.h"
namespace arolla {
enum class AccumulatorType { kAggregator, kPartial, kFull };
template <AccumulatorType T, typename R, typename P, typename C> class Accumulator;
template <AccumulatorType T, typename R, typename... P, typename... C>
class Accumulator<T, R, meta::type_list<P...>, meta::type_list<C...>> {
 public:
  using result_type = R; using parent_types = meta::type_list<P...>; using child_types = meta::type_list<C...>;
  static constexpr AccumulatorType accumulator_type = T;
  static constexpr bool IsAggregator() { return T == AccumulatorType::kAggregator; }
  static constexpr bool IsPartial() { return T == AccumulatorType::kPartial; }
  static constexpr bool IsFull() { return T == AccumulatorType::kFull; }
  virtual void Reset(view_type_t<P>...) = 0;
  virtual void Add(view_type_t<C>...) = 0;
  virtual view_type_t<R> GetResult() = 0;
  virtual void FinalizeFullGroup() {}
  virtual absl::Status GetStatus() { return absl::OkStatus(); }
  virtual ~Accumulator() = default;
};
}
#endif
