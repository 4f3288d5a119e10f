#ifndef VERIF_AROLLA_REPR_H_
#define VERIF_AROLLA_REPR_H_
#include <sstream>
#include <string>
#include <type_traits>
namespace arolla {
struct ReprToken {
  std::string str;
  friend bool operator==(const ReprToken& a, const ReprToken& b) { return a.str == b.str; }
};
template <typename T, typename = void> struct ReprTraits {
  ReprToken operator()(const T& x) const {
    if constexpr (std::is_arithmetic_v<T>) return {std::to_string(x)};
    else if constexpr (std::is_same_v<T, std::string>) return {"b'" + x + "'"};
    else return {"<value>"};
  }
};
template <typename T> ReprToken GenReprToken(const T& x) { return ReprTraits<T>()(x); }
template <typename T> std::string Repr(const T& x) { return GenReprToken(x).str; }
}
#define AROLLA_DECLARE_REPR(...) \
  template <> struct ReprTraits<__VA_ARGS__> { ReprToken operator()(const __VA_ARGS__& value) const; }
#endif
