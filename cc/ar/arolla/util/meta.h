#ifndef VERIF_AR_META_H_
#define VERIF_AR_META_H_
#include <functional>
#include <tuple>
#include <type_traits>
#include <utility>
namespace arolla::meta {
template <typename T> struct type_ { using type = T; };
template <typename T> using type = type_<T>;
template <typename... T> struct type_list { using tuple = std::tuple<T...>; };
template <typename... T> struct type_list_ { using type = type_list<T...>; };
namespace d {
template <typename... L> struct concat;
template <> struct concat<> { using type = type_list<>; };
template <typename... A> struct concat<type_list<A...>> { using type = type_list<A...>; };
template <typename... A, typename... B, typename... R> struct concat<type_list<A...>, type_list<B...>, R...>
    : concat<type_list<A..., B...>, R...> {};
template <typename L> struct head;
template <typename H, typename... T> struct head<type_list<H, T...>> { using type = H; using tail = type_list<T...>; };
template <typename L, typename T> struct contains;
template <typename... A, typename T> struct contains<type_list<A...>, T> : std::disjunction<std::is_same<A, T>...> {};
template <template <typename...> class W, typename T> struct wrapped : std::false_type {};
template <template <typename...> class W, typename... T> struct wrapped<W, W<T...>> : std::true_type {};
template <template <typename> class W, typename T> struct strip { using type = T; };
template <template <typename> class W, typename T> struct strip<W, W<T>> { using type = T; };
template <template <typename> class F, typename L> struct transform;
template <template <typename> class F, typename... A> struct transform<F, type_list<A...>> { using type = type_list<typename F<A>::type...>; };
}  // namespace d
template <typename... L> using concat_t = typename d::concat<L...>::type;
template <typename L> using head_t = typename d::head<L>::type;
template <typename L> using tail_t = typename d::head<L>::tail;
template <typename L, typename T> constexpr bool contains_v = d::contains<L, T>::value;
template <template <typename...> class W, typename T> constexpr bool is_wrapped_with_v = d::wrapped<W, T>::value;
template <template <typename> class W, typename T> using strip_template_t = typename d::strip<W, T>::type;
template <template <typename> class F, typename L> using transform_t = typename d::transform<F, L>::type;
template <typename F, typename... A> constexpr void foreach_type(type_list<A...>, F&& f) { (void)f; (f(type_<A>()), ...); }
template <typename L, typename F> constexpr void foreach_type(F&& f) { foreach_type(L(), std::forward<F>(f)); }
template <typename F> struct function_traits : function_traits<decltype(&std::decay_t<F>::operator())> {};
template <typename R, typename... A> struct function_traits<R(A...)> {
  static constexpr int arity = sizeof...(A);
  using arg_types = type_list<A...>; using return_type = R;
};
template <typename R, typename... A> struct function_traits<R (*)(A...)> : function_traits<R(A...)> {};
template <typename R, typename... A> struct function_traits<R (&)(A...)> : function_traits<R(A...)> {};
template <typename C, typename R, typename... A> struct function_traits<R (C::*)(A...)> : function_traits<R(A...)> {};
template <typename C, typename R, typename... A> struct function_traits<R (C::*)(A...) const> : function_traits<R(A...)> {};
template <typename C, typename R, typename... A> struct function_traits<R (C::*)(A...) noexcept> : function_traits<R(A...)> {};
template <typename C, typename R, typename... A> struct function_traits<R (C::*)(A...) const noexcept> : function_traits<R(A...)> {};
template <typename F> struct function_traits<std::reference_wrapper<F>> : function_traits<F> {};
template <typename T, typename = void> struct has_transparent : std::false_type {};
}  // namespace arolla::meta
#endif
