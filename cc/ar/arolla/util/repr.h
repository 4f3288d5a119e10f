#ifndef VERIF_AR_REPR_H_
#define VERIF_AR_REPR_H_
#include <string>
#include <type_traits>
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
namespace arolla {
struct ReprToken {
  struct Precedence { int8_t left = -1; int8_t right = -1; };
  static constexpr Precedence kHighest{-1, -1};
  static constexpr Precedence kSafeForSubscription = kHighest;
  std::string str;
  Precedence precedence = kHighest;
};
namespace verif_ar {
template <typename T, typename = void> struct HasRepr : std::false_type {};
template <typename T> struct HasRepr<T, std::void_t<decltype(std::declval<const T&>().ArollaReprToken())>> : std::true_type {};
std::string Quote(absl::string_view s);
std::string ReprNum(float x);
std::string ReprNum(double x);
}
template <typename T, typename = void> struct ReprTraits {
  ReprToken operator()(const T& x) const {
    if constexpr (verif_ar::HasRepr<T>::value) return x.ArollaReprToken();
    else if constexpr (std::is_same_v<T, bool>) return {x ? "true" : "false"};
    else if constexpr (std::is_same_v<T, int64_t>) return {absl::StrCat("int64{", x, "}")};
    else if constexpr (std::is_same_v<T, float>) return {verif_ar::ReprNum(x)};
    else if constexpr (std::is_same_v<T, double>) return {"float64{" + verif_ar::ReprNum(x) + "}"};
    else if constexpr (std::is_arithmetic_v<T>) return {absl::StrCat(x)};
    else if constexpr (std::is_same_v<T, std::string>) return {"b" + verif_ar::Quote(x)};
    else if constexpr (std::is_same_v<T, Text>) return {verif_ar::Quote(x.view())};
    else if constexpr (std::is_same_v<T, Unit>) return {"present"};
    else return {"<value>"};
  }
};
template <typename T> ReprToken GenReprToken(const T& x) { return ReprTraits<T>()(x); }
template <typename T> std::string Repr(const T& x) { return GenReprToken(x).str; }
}
#define AROLLA_DECLARE_REPR(...) \
  template <> struct ReprTraits<__VA_ARGS__> { ReprToken operator()(const __VA_ARGS__& value) const; }
#endif
