// Stand-in: matchers over payloads and causes (used to validate the stand-ins).
#ifndef VERIF_AROLLA_STATUS_MATCHERS_H_
#define VERIF_AROLLA_STATUS_MATCHERS_H_
#include "absl/status/status_matchers.h"
#include "arolla/util/status.h"
namespace arolla::testing {
template <typename T, typename M> class PayloadIsM {
 public:
  using is_gtest_matcher = void;
  explicit PayloadIsM(M m) : m_(std::move(m)) {}
  template <typename S> bool MatchAndExplain(const S& s, ::testing::MatchResultListener* l) const {
    const T* p = arolla::GetPayload<T>(absl_testing::GetStatus(s));
    return p && ::testing::ExplainMatchResult(m_, *p, l);
  }
  void DescribeTo(std::ostream*) const {}
  void DescribeNegationTo(std::ostream*) const {}
 private:
  M m_;
};
template <typename T> auto PayloadIs() { return PayloadIsM<T, decltype(::testing::_)>(::testing::_); }
template <typename T, typename M> auto PayloadIs(M m) { return PayloadIsM<T, M>(std::move(m)); }
template <typename M> class CausedByM {
 public:
  using is_gtest_matcher = void;
  explicit CausedByM(M m) : m_(std::move(m)) {}
  template <typename S> bool MatchAndExplain(const S& s, ::testing::MatchResultListener* l) const {
    const absl::Status* c = arolla::GetCause(absl_testing::GetStatus(s));
    return c && ::testing::ExplainMatchResult(m_, *c, l);
  }
  void DescribeTo(std::ostream*) const {}
  void DescribeNegationTo(std::ostream*) const {}
 private:
  M m_;
};
template <typename M> auto CausedBy(M m) { return CausedByM<M>(std::move(m)); }
}  // namespace arolla::testing
#endif
