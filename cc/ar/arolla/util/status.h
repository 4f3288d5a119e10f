#ifndef VERIF_AR_STATUS_H_
#define VERIF_AR_STATUS_H_
#include <any>
#include <initializer_list>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace arolla {
namespace verif_ar {
// Payloads of any type, kept alive by the status (through its cord).
struct Extra { std::any payload; absl::Status cause; };
absl::Status Attach(absl::Status s, Extra e);
const Extra* Get(const absl::Status& s);
}
absl::Status SizeMismatchError(std::initializer_list<int64_t> sizes);
inline absl::Status GetStatusOrOk(const absl::Status& s) { return s; }
template <typename T> absl::Status GetStatusOrOk(const absl::StatusOr<T>& s) { return s.status(); }
template <typename T> absl::Status GetStatusOrOk(const T&) { return absl::OkStatus(); }
template <typename T> constexpr bool IsOkStatus(const T&) { return true; }
inline bool IsOkStatus(const absl::Status& s) { return s.ok(); }
template <typename T> bool IsOkStatus(const absl::StatusOr<T>& s) { return s.ok(); }
template <typename T> struct IsStatusOrT : std::false_type {};
template <typename T> struct IsStatusOrT<absl::StatusOr<T>> : std::true_type {};
template <typename T> using strip_statusor_t_impl = T;
template <typename T> struct StripStatusOr { using type = T; };
template <typename T> struct StripStatusOr<absl::StatusOr<T>> { using type = T; };
template <typename T> using strip_statusor_t = typename StripStatusOr<T>::type;
template <typename T> absl::Status WithPayload(absl::Status s, T p) {
  verif_ar::Extra e; if (auto* o = verif_ar::Get(s)) e = *o;
  e.payload = std::move(p);
  return verif_ar::Attach(std::move(s), std::move(e));
}
inline absl::Status WithCause(absl::Status s, absl::Status cause) {
  verif_ar::Extra e; if (auto* o = verif_ar::Get(s)) e = *o;
  e.cause = std::move(cause);
  return verif_ar::Attach(std::move(s), std::move(e));
}
template <typename T, typename C> absl::Status WithPayloadAndCause(absl::Status s, T p, C c) { return WithCause(WithPayload(std::move(s), std::move(p)), std::move(c)); }
inline const absl::Status* GetCause(const absl::Status& s) { auto* e = verif_ar::Get(s); return e && !e->cause.ok() ? &e->cause : nullptr; }
template <typename T> const T* GetPayload(const absl::Status& s) { auto* e = verif_ar::Get(s); return e ? std::any_cast<T>(&e->payload) : nullptr; }
template <typename T> const T* GetPayload(const absl::StatusOr<T>& s) { return GetPayload<T>(s.status()); }
inline absl::Status WithUpdatedMessage(const absl::Status& s, absl::string_view m) {
  absl::Status r(s.code(), m);
  if (auto* e = verif_ar::Get(s)) return verif_ar::Attach(std::move(r), *e);
  return r;
}
}
#endif
