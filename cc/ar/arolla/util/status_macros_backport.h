#ifndef VERIF_AROLLA_STATUS_MACROS_H_
#define VERIF_AROLLA_STATUS_MACROS_H_
#include <string>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
namespace arolla::verif_status {
class StatusBuilder {
 public:
  explicit StatusBuilder(absl::Status s) : s_(std::move(s)) {}
  template <typename T> StatusBuilder& operator<<(const T& x) & { Append(x); return *this; }
  template <typename T> StatusBuilder&& operator<<(const T& x) && { Append(x); return std::move(*this); }
  StatusBuilder&& SetPrepend() && { prepend_ = true; return std::move(*this); }
  template <typename F> auto With(F&& f) && { return std::forward<F>(f)(absl::Status(std::move(*this))); }
  operator absl::Status() && { return Make(); }
  operator absl::Status() const& { return Make(); }
  template <typename T> operator absl::StatusOr<T>() && { return Make(); }
  template <typename T> operator absl::StatusOr<T>() const& { return Make(); }
 private:
  template <typename T> void Append(const T& x) { absl::StrAppend(&extra_, x); }
  absl::Status Make() const {
    if (extra_.empty()) return s_;
    return absl::Status(s_.code(), prepend_ ? absl::StrCat(extra_, s_.message()) : absl::StrCat(s_.message(), "; ", extra_));
  }
  absl::Status s_;
  std::string extra_;
  bool prepend_ = false;
};
inline absl::Status ToStatus(absl::Status s) { return s; }
template <typename T> absl::Status ToStatus(absl::StatusOr<T>&& s) { return std::move(s).status(); }
template <typename T> absl::Status ToStatus(const absl::StatusOr<T>& s) { return s.status(); }
struct Adaptor {
  absl::Status s;
  explicit operator bool() const { return s.ok(); }
  StatusBuilder Consume() { return StatusBuilder(std::move(s)); }
};
}  // namespace arolla::verif_status
#define VERIF_SM_CAT2(a, b) a##b
#define VERIF_SM_CAT(a, b) VERIF_SM_CAT2(a, b)
#undef RETURN_IF_ERROR
#undef ASSIGN_OR_RETURN
#define RETURN_IF_ERROR(e) \
  switch (0) case 0: default: \
  if (::arolla::verif_status::Adaptor _sa{::arolla::verif_status::ToStatus(e)}) {} else return _sa.Consume()
// A parenthesised left side loses its parentheses.
#define VERIF_SM_LHS(lhs) VERIF_SM_UN2(VERIF_SM_UN1 lhs)
#define VERIF_SM_UN1(...) VERIF_SM_MARK __VA_ARGS__
#define VERIF_SM_UN2(...) VERIF_SM_UN3(__VA_ARGS__)
#define VERIF_SM_UN3(...) VERIF_SM_DEL_##__VA_ARGS__
#define VERIF_SM_DEL_VERIF_SM_MARK
#define VERIF_SM_DEL_VERIF_SM_UN1
#define VERIF_SM_PICK(_1, _2, _3, N, ...) N
#define ASSIGN_OR_RETURN(...) VERIF_SM_PICK(__VA_ARGS__, VERIF_AOR3, VERIF_AOR2, )(__VA_ARGS__)
#define VERIF_AOR2(lhs, e) \
  auto VERIF_SM_CAT(_aor, __LINE__) = (e); \
  if (!VERIF_SM_CAT(_aor, __LINE__).ok()) return std::move(VERIF_SM_CAT(_aor, __LINE__)).status(); \
  VERIF_SM_LHS(lhs) = std::move(VERIF_SM_CAT(_aor, __LINE__)).value()
#define VERIF_AOR3(lhs, e, err) \
  auto VERIF_SM_CAT(_aor, __LINE__) = (e); \
  if (!VERIF_SM_CAT(_aor, __LINE__).ok()) { \
    ::arolla::verif_status::StatusBuilder _(std::move(VERIF_SM_CAT(_aor, __LINE__)).status()); \
    return err; \
  } \
  VERIF_SM_LHS(lhs) = std::move(VERIF_SM_CAT(_aor, __LINE__)).value()
#endif
