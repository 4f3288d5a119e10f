#ifndef VERIF_AR_OPTIONAL_VALUE_H_
#define VERIF_AR_OPTIONAL_VALUE_H_
#include <cstdint>
#include <optional>
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
#include "arolla/util/bytes.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/meta.h"
#include "arolla/util/repr.h"
#include "arolla/util/status.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
#include "arolla/util/view_types.h"
namespace arolla {
template <typename T> struct OptionalValue {
  using value_type = T;
  bool present = false;
  T value = {};
  constexpr OptionalValue() = default;
  constexpr OptionalValue(T v) : present(true), value(std::move(v)) {}
  constexpr OptionalValue(std::nullopt_t) {}
  template <typename U> constexpr OptionalValue(const OptionalValue<U>& o) : present(o.present), value(o.present ? T(o.value) : T()) {}
  constexpr OptionalValue(bool p, const T& v) : present(p), value(v) {}
  constexpr OptionalValue(bool p, T&& v) : present(p), value(std::move(v)) {}
  constexpr OptionalValue(const std::optional<T>& o) : present(o.has_value()), value(o.value_or(T())) {}
  OptionalValue& operator=(std::nullopt_t) { present = false; return *this; }
  constexpr explicit operator bool() const { return present; }
  constexpr std::optional<T> AsOptional() const& { return present ? std::optional<T>(value) : std::nullopt; }
  constexpr operator std::optional<T>() const { return AsOptional(); }
  constexpr OptionalValue<view_type_t<T>> AsView() const { return {present, view_type_t<T>(value)}; }
  void ArollaFingerprint(FingerprintHasher* h) const { h->Combine(present); if (present) h->Combine(value); }
  ReprToken ArollaReprToken() const { return {present ? "optional_" + Repr(value) : "NA"}; }
};
template <> struct OptionalValue<Unit> {
  using value_type = Unit;
  bool present = false;
  static constexpr Unit value = {};
  constexpr OptionalValue() = default;
  constexpr OptionalValue(Unit) : present(true) {}
  constexpr OptionalValue(std::nullopt_t) {}
  constexpr OptionalValue(bool p, Unit) : present(p) {}
  constexpr explicit OptionalValue(bool p) : present(p) {}
  constexpr explicit operator bool() const { return present; }
  constexpr std::optional<Unit> AsOptional() const { return present ? std::optional<Unit>(Unit{}) : std::nullopt; }
  void ArollaFingerprint(FingerprintHasher* h) const { h->Combine(present); }
  ReprToken ArollaReprToken() const { return {present ? "present" : "missing"}; }
};
using OptionalUnit = OptionalValue<Unit>;
constexpr OptionalUnit kPresent{Unit{}};
constexpr OptionalUnit kMissing{};
template <typename T> OptionalValue(T) -> OptionalValue<T>;
template <typename T> struct is_optional : std::false_type {};
template <typename T> struct is_optional<OptionalValue<T>> : std::true_type {};
template <typename T> constexpr bool is_optional_v = is_optional<std::decay_t<T>>::value;
template <typename T> struct strip_optional { using type = T; };
template <typename T> struct strip_optional<OptionalValue<T>> { using type = T; };
template <typename T> using strip_optional_t = typename strip_optional<T>::type;
template <typename T> struct wrap_with_optional { using type = OptionalValue<T>; };
template <typename T> struct wrap_with_optional<OptionalValue<T>> { using type = OptionalValue<T>; };
template <typename T> using wrap_with_optional_t = typename wrap_with_optional<T>::type;
template <typename T> struct ViewType<OptionalValue<T>> { using type = OptionalValue<view_type_t<T>>; };
template <typename A, typename B> constexpr bool operator==(const OptionalValue<A>& a, const OptionalValue<B>& b) {
  if (a.present && b.present) return a.value == b.value;
  return a.present == b.present;
}
template <typename A> constexpr bool operator==(const OptionalValue<A>& a, std::nullopt_t) { return !a.present; }
template <typename A> constexpr bool operator==(std::nullopt_t, const OptionalValue<A>& a) { return !a.present; }
template <typename A, typename B, typename = std::enable_if_t<!is_optional_v<B> && !std::is_same_v<B, std::nullopt_t>>>
constexpr bool operator==(const OptionalValue<A>& a, const B& b) { return a.present && a.value == b; }
template <typename A, typename B> constexpr bool operator!=(const A& a, const OptionalValue<B>& b) { return !(a == b); }
template <typename A> constexpr auto MakeOptional(A v) { return OptionalValue<A>(v); }
template <typename T> std::ostream& operator<<(std::ostream& o, const OptionalValue<T>& v) {
  if (!v.present) return o << "NA";
  if constexpr (requires { o << v.value; }) return o << v.value; else return o << "present";
}
inline const absl::string_view kGreetingUnused = "";
}
#endif
