// Stand-in: header-only absl::Status (so that every access to it is seen).
#ifndef VERIF_ABSL_STATUS_H_
#define VERIF_ABSL_STATUS_H_
#include <functional>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <utility>
#include "absl/base/attributes.h"
#include "absl/types/source_location.h"
#include "absl/strings/string_view.h"
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5,
  kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10,
  kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
};
inline std::ostream& operator<<(std::ostream& o, StatusCode c) { return o << "code" << static_cast<int>(c); }
class ABSL_MUST_USE_RESULT Status final {
 public:
  Status() = default;
  Status(StatusCode c, absl::string_view m) : code_(c), msg_(c == StatusCode::kOk ? absl::string_view() : m) {}
  Status(StatusCode c, absl::string_view m, absl::SourceLocation) : Status(c, m) {}
  Status(const Status&) = default;
  Status& operator=(const Status&) = default;
  Status(Status&& o) noexcept : verif_extra(std::move(o.verif_extra)), code_(o.code_), msg_(std::move(o.msg_)) { o.Moved(); }
  Status& operator=(Status&& o) noexcept {
    if (this != &o) { code_ = o.code_; msg_ = std::move(o.msg_); verif_extra = std::move(o.verif_extra); o.Moved(); }
    return *this;
  }
  ABSL_MUST_USE_RESULT bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return static_cast<int>(code_); }
  absl::string_view message() const { return msg_; }
  void Update(const Status& s) { if (ok()) *this = s; }
  void Update(Status&& s) { if (ok()) *this = std::move(s); }
  void IgnoreError() const {}
  std::string ToString() const {
    return ok() ? std::string("OK") : "code" + std::to_string(static_cast<int>(code_)) + ": " + msg_;
  }
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_ && a.msg_ == b.msg_; }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  friend void swap(Status& a, Status& b) { std::swap(a.code_, b.code_); std::swap(a.msg_, b.msg_); std::swap(a.verif_extra, b.verif_extra); }
  std::shared_ptr<void> verif_extra;
 private:
  void Moved() { if (code_ != StatusCode::kOk) { code_ = StatusCode::kInternal; msg_.clear(); msg_ += "Status accessed after move."; } }
  StatusCode code_ = StatusCode::kOk;
  std::string msg_;
};
inline std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.ToString(); }
inline Status OkStatus() { return Status(); }
#define VERIF_ERR(N) \
  inline Status N##Error(absl::string_view m) { return Status(StatusCode::k##N, m); } \
  inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
VERIF_ERR(Cancelled) VERIF_ERR(Unknown) VERIF_ERR(InvalidArgument) VERIF_ERR(DeadlineExceeded) VERIF_ERR(NotFound)
VERIF_ERR(AlreadyExists) VERIF_ERR(PermissionDenied) VERIF_ERR(ResourceExhausted) VERIF_ERR(FailedPrecondition)
VERIF_ERR(Aborted) VERIF_ERR(OutOfRange) VERIF_ERR(Unimplemented) VERIF_ERR(Internal) VERIF_ERR(Unavailable)
VERIF_ERR(DataLoss) VERIF_ERR(Unauthenticated)
#undef VERIF_ERR
inline Status CancelledError() { return Status(StatusCode::kCancelled, ""); }
}  // namespace absl
#endif
