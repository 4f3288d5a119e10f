#ifndef VERIF_AROLLA_META_H_
#define VERIF_AROLLA_META_H_
namespace arolla::meta {
template <typename T> struct type_ { using type = T; };
template <typename T> constexpr type_<T> type() { return {}; }
}
#endif
