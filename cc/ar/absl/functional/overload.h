#ifndef VERIF_ABSL_OVERLOAD_H_
#define VERIF_ABSL_OVERLOAD_H_
#include <utility>
namespace absl {
template <typename... T> struct Overload final : T... { using T::operator()...; constexpr explicit Overload(T... t) : T(std::move(t))... {} };
template <typename... T> Overload(T...) -> Overload<T...>;
}
#endif
