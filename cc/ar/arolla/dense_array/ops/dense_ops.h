#ifndef VERIF_AR_DENSE_OPS_H_
#define VERIF_AR_DENSE_OPS_H_
#include <tuple>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/util/meta.h"
#include "arolla/util/status.h"
namespace arolla {
struct DenseOpFlags {
  static constexpr int kRunOnMissing = 1 << 0;
  static constexpr int kNoBitmapOffset = 1 << 1;
  static constexpr int kNoSizeValidation = 1 << 2;
};
namespace verif_ar {
// Values of one row, as the function takes them.
template <typename A, typename D> auto ArgOf(const D& d, int64_t i) {
  if constexpr (is_optional_v<A>) { bool p = d.present(i); using V = strip_optional_t<std::decay_t<A>>; return p ? OptionalValue<V>(V(d.values[i])) : OptionalValue<V>(); }
  else return d.values[i];
}
template <typename L> struct Decayed;
template <typename... A> struct Decayed<meta::type_list<A...>> { using type = meta::type_list<std::decay_t<A>...>; };
template <typename L> struct Drop1 { using type = meta::tail_t<L>; };
template <bool PassValid, typename F, typename... A, typename... D>
absl::Status Rows(F& f, meta::type_list<A...>, const D&... d) {
  int64_t n = -1; bool ok = true;
  ((n < 0 ? void(n = d.size()) : void(ok &= n == d.size())), ...);
  if (!ok) return SizeMismatchError({d.size()...});
  for (int64_t i = 0; i < n; ++i) {
    bool valid = ((is_optional_v<A> || d.present(i)) && ...);
    if constexpr (PassValid) {
      using R = std::decay_t<decltype(f(i, valid, ArgOf<A>(d, i)...))>;
      if constexpr (std::is_same_v<R, absl::Status>) { auto s = f(i, valid, ArgOf<A>(d, i)...); if (!s.ok()) return s; }
      else f(i, valid, ArgOf<A>(d, i)...);
    } else if (valid) {
      using R = std::decay_t<decltype(f(i, ArgOf<A>(d, i)...))>;
      if constexpr (std::is_same_v<R, absl::Status>) { auto s = f(i, ArgOf<A>(d, i)...); if (!s.ok()) return s; }
      else f(i, ArgOf<A>(d, i)...);
    }
  }
  return absl::OkStatus();
}
// Parameter types of a function, or those the arrays have when it is generic.
template <typename F, typename = void> struct Params { static constexpr bool known = false; };
template <typename F> struct Params<F, std::void_t<typename meta::function_traits<std::decay_t<F>>::arg_types>> {
  static constexpr bool known = true; using type = typename meta::function_traits<std::decay_t<F>>::arg_types;
};
}
template <typename F, typename... T> absl::Status DenseArraysForEach(F&& f, const DenseArray<T>&... d) {
  if constexpr (verif_ar::Params<F>::known)
    return verif_ar::Rows<true>(f, meta::tail_t<meta::tail_t<typename verif_ar::Decayed<typename verif_ar::Params<F>::type>::type>>(), d...);
  else return verif_ar::Rows<true>(f, meta::type_list<view_type_t<T>...>(), d...);
}
template <typename F, typename... T> absl::Status DenseArraysForEachPresent(F&& f, const DenseArray<T>&... d) {
  if constexpr (verif_ar::Params<F>::known)
    return verif_ar::Rows<false>(f, meta::tail_t<typename verif_ar::Decayed<typename verif_ar::Params<F>::type>::type>(), d...);
  else return verif_ar::Rows<false>(f, meta::type_list<view_type_t<T>...>(), d...);
}
namespace verif_ar {
template <typename T> struct ValueOf { using type = T; };
template <> struct ValueOf<absl::string_view> { using type = Text; };
template <int Flags, typename F, typename Res> class DenseOp {
 public:
  explicit DenseOp(F f) : f_(std::move(f)) {}
  template <typename... D> auto operator()(const D&... d) const {
    if constexpr (Params<F>::known) return Run(typename Decayed<typename Params<F>::type>::type(), d...);
    else return Run(meta::type_list<typename Elem<D>::type...>(), d...);
  }
 private:
  template <typename D> struct Elem { using type = view_type_t<typename D::base_type>; };
  template <typename... A, typename... D> auto Run(meta::type_list<A...>, const D&... d) const {
    using R0 = std::decay_t<decltype(f_(ArgOf<A>(d, 0)...))>;
    using R1 = strip_statusor_t<R0>;
    using T = std::conditional_t<std::is_void_v<Res>, typename ValueOf<strip_optional_t<R1>>::type, Res>;
    constexpr bool check_size = sizeof...(D) > 1 && !(Flags & DenseOpFlags::kNoSizeValidation);
    using Ret = std::conditional_t<IsStatusOrT<R0>::value || check_size, absl::StatusOr<DenseArray<T>>, DenseArray<T>>;
    int64_t n = -1; bool ok = true;
    ((n < 0 ? void(n = d.size()) : void(ok &= n == d.size())), ...);
    if constexpr (check_size) { if (!ok) return Ret(SizeMismatchError({d.size()...})); } else { CHECK(ok); }
    DenseArrayBuilder<T> b(n);
    for (int64_t i = 0; i < n; ++i) {
      if (!((is_optional_v<A> || d.present(i)) && ...)) continue;
      if constexpr (IsStatusOrT<R0>::value) {
        auto r = f_(ArgOf<A>(d, i)...);
        if (!r.ok()) return Ret(r.status());
        b.Set(i, *r);
      } else b.Set(i, f_(ArgOf<A>(d, i)...));
    }
    return Ret(std::move(b).Build());
  }
  F f_;
};
}
template <int Flags, typename F, typename Res = void> auto CreateDenseOp(F f, RawBufferFactory* = nullptr) { return verif_ar::DenseOp<Flags, F, Res>(std::move(f)); }
template <typename F, typename Res = void> auto CreateDenseOp(F f, RawBufferFactory* = nullptr) { return verif_ar::DenseOp<0, F, Res>(std::move(f)); }
}
#endif
