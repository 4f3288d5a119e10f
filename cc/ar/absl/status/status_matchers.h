// Stand-in for test macros and matchers (used to validate the stand-ins).
#ifndef VERIF_ABSL_STATUS_MATCHERS_H_
#define VERIF_ABSL_STATUS_MATCHERS_H_
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/util/status_macros_backport.h"
#include "gmock/gmock.h"
#include "gtest/gtest.h"
namespace absl_testing {
inline const absl::Status& GetStatus(const absl::Status& s) { return s; }
template <typename T> const absl::Status& GetStatus(const absl::StatusOr<T>& s) { return s.status(); }
MATCHER(IsOk, "") { return GetStatus(arg).ok(); }
MATCHER_P(StatusIs, code, "") { return GetStatus(arg).code() == code; }
MATCHER_P2(StatusIs, code, msg, "") {
  *result_listener << GetStatus(arg).ToString();
  return GetStatus(arg).code() == code &&
         ::testing::Matches(::testing::SafeMatcherCast<const std::string&>(msg))(std::string(GetStatus(arg).message()));
}
MATCHER_P(IsOkAndHolds, m, "") {
  return arg.ok() && ::testing::ExplainMatchResult(m, *arg, result_listener);
}
}  // namespace absl_testing
#define VERIF_CAT2(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT2(a, b)
#define ASSERT_OK(e) ASSERT_THAT(e, ::absl_testing::IsOk())
#define EXPECT_OK(e) EXPECT_THAT(e, ::absl_testing::IsOk())
#define ASSERT_OK_AND_ASSIGN(lhs, e) \
  auto VERIF_CAT(_so, __LINE__) = (e); ASSERT_OK(VERIF_CAT(_so, __LINE__)); VERIF_SM_LHS(lhs) = std::move(VERIF_CAT(_so, __LINE__)).value()
#endif
