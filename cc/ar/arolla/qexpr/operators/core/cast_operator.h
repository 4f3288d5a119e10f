#ifndef VERIF_AR_CAST_OPERATOR_H_
#define VERIF_AR_CAST_OPERATOR_H_
#include <cmath>
#include <limits>
#include <type_traits>
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "arolla/memory/optional_value.h"
#include "arolla/util/repr.h"
namespace arolla {
template <typename D> struct CastOp {
  template <typename S> auto operator()(const S& v) const {
    constexpr bool same = std::is_same_v<D, S>, src_float = std::is_floating_point_v<S>, dst_int = std::is_integral_v<D> && !std::is_same_v<D, bool>;
    constexpr bool safe = same || std::is_same_v<S, bool> || std::is_floating_point_v<D> || (dst_int && !src_float && sizeof(S) < sizeof(D)) || std::is_same_v<D, bool>;
    if constexpr (safe) return static_cast<D>(v);
    else {
      using R = absl::StatusOr<D>;
      auto bad = [&] { return R(absl::InvalidArgumentError(absl::StrCat("cannot cast ", Repr(v), " to ", sizeof(D) == 4 ? "int32" : "int64"))); };
      if constexpr (src_float) {
        if (std::isnan(v)) return bad();
        auto t = std::trunc(static_cast<long double>(v));
        if (t < static_cast<long double>(std::numeric_limits<D>::min()) || t > static_cast<long double>(std::numeric_limits<D>::max())) return bad();
      } else if (v < std::numeric_limits<D>::min() || v > std::numeric_limits<D>::max()) return bad();
      return R(static_cast<D>(v));
    }
  }
};
struct ToBoolOp { template <typename S> bool operator()(const S& v) const { return v != S(0); } };
}
#endif
