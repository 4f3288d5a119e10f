// The installed Abseil, plus the member-typedef customisation of later
// versions: a key type with `absl_container_hash` is hashed by it.
#include_next "absl/container/internal/hash_function_defaults.h"
#ifndef VERIF_ABSL_HASH_FUNCTION_DEFAULTS_H_
#define VERIF_ABSL_HASH_FUNCTION_DEFAULTS_H_
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace container_internal {
template <class T, class = void>
struct VerifContainerEq { using type = std::equal_to<>; };
template <class T>
struct VerifContainerEq<T, std::void_t<typename T::absl_container_eq>> { using type = typename T::absl_container_eq; };
template <class T>
struct HashEq<T, std::void_t<typename T::absl_container_hash>> {
  using Hash = typename T::absl_container_hash;
  using Eq = typename VerifContainerEq<T>::type;
};
}  // namespace container_internal
ABSL_NAMESPACE_END
}  // namespace absl
#endif
