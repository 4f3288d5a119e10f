// Stand-in: header-only absl::StatusOr, with support for references.
#ifndef VERIF_ABSL_STATUSOR_H_
#define VERIF_ABSL_STATUSOR_H_
#include <memory>
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/log/check.h"
#include "absl/status/status.h"
namespace absl {
template <typename T> class StatusOr;
namespace verif_internal {
template <typename T> struct IsStatusOr : std::false_type {};
template <typename T> struct IsStatusOr<StatusOr<T>> : std::true_type {};
template <typename T> using Bare = std::remove_cv_t<std::remove_reference_t<T>>;
}
template <typename T>
class ABSL_MUST_USE_RESULT StatusOr {
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&& o) : status_(std::move(o.status_)), value_(std::move(o.value_)) {}
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&& o) { status_ = std::move(o.status_); value_ = std::move(o.value_); return *this; }
  template <typename U, typename = std::enable_if_t<!std::is_same_v<U, T> && std::is_constructible_v<T, const U&>>>
  StatusOr(const StatusOr<U>& o) : status_(o.status()) { if (o.ok()) value_.emplace(*o); }
  template <typename U, typename = std::enable_if_t<!std::is_same_v<U, T> && std::is_constructible_v<T, U&&>>>
  StatusOr(StatusOr<U>&& o) : status_(o.status()) { if (o.ok()) value_.emplace(*std::move(o)); }
  StatusOr(const Status& s) : status_(s) { CheckNotOk(); }
  StatusOr(Status&& s) : status_(std::move(s)) { CheckNotOk(); }
  template <typename U = T,
            typename = std::enable_if_t<std::is_convertible_v<U&&, T> && !std::is_same_v<verif_internal::Bare<U>, Status> &&
                                        !std::is_same_v<verif_internal::Bare<U>, std::in_place_t> &&
                                        !verif_internal::IsStatusOr<verif_internal::Bare<U>>::value>>
  StatusOr(U&& u) : value_(std::in_place, std::forward<U>(u)) {}
  template <typename... A> explicit StatusOr(std::in_place_t, A&&... a) : value_(std::in_place, std::forward<A>(a)...) {}
  ABSL_MUST_USE_RESULT bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return ok() ? OkStatus() : std::move(status_); }
  const T& value() const& { Ensure(); return *value_; }
  T& value() & { Ensure(); return *value_; }
  T&& value() && { Ensure(); return std::move(*value_); }
  const T& operator*() const& { Ensure(); return *value_; }
  T& operator*() & { Ensure(); return *value_; }
  T&& operator*() && { Ensure(); return std::move(*value_); }
  const T* operator->() const { Ensure(); return &*value_; }
  T* operator->() { Ensure(); return &*value_; }
  template <typename U> T value_or(U&& d) const& { return ok() ? *value_ : static_cast<T>(std::forward<U>(d)); }
  template <typename... A> T& emplace(A&&... a) { status_ = OkStatus(); return value_.emplace(std::forward<A>(a)...); }
  void IgnoreError() const {}
 private:
  void Ensure() const { CHECK(status_.ok()) << "StatusOr without a value"; }
  void CheckNotOk() { CHECK(!status_.ok()) << "StatusOr made of an OK status"; }
  Status status_;
  std::optional<T> value_;
};
template <typename T>
class ABSL_MUST_USE_RESULT StatusOr<T&> {
 public:
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : status_(s) {}
  StatusOr(Status&& s) : status_(std::move(s)) {}
  StatusOr(T& t) : p_(&t) {}
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return std::move(status_); }
  T& value() const { return *p_; }
  T& operator*() const { CHECK(status_.ok()); return *p_; }
  T* operator->() const { CHECK(status_.ok()); return p_; }
 private:
  Status status_;
  T* p_ = nullptr;
};
template <typename T> bool operator==(const StatusOr<T>& a, const StatusOr<T>& b) {
  if (a.ok() && b.ok()) return *a == *b;
  return a.status() == b.status();
}
}  // namespace absl
#endif
