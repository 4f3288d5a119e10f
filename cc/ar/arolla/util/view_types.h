#ifndef VERIF_AR_VIEW_TYPES_H_
#define VERIF_AR_VIEW_TYPES_H_
#include <string>
#include "absl/strings/string_view.h"
#include "arolla/util/bytes.h"
#include "arolla/util/text.h"
namespace arolla {
template <typename T> struct ViewType { using type = T; };
template <> struct ViewType<Bytes> { using type = absl::string_view; };
template <> struct ViewType<Text> { using type = absl::string_view; };
template <typename T> using view_type_t = typename ViewType<T>::type;
template <typename T> constexpr bool has_view_type_v = !std::is_same_v<T, view_type_t<T>>;
}
#endif
