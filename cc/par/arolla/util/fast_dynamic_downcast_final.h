#ifndef VERIF_AROLLA_DOWNCAST_H_
#define VERIF_AROLLA_DOWNCAST_H_
#include <type_traits>
#include <typeinfo>
namespace arolla {
template <typename T, typename S>
T fast_dynamic_downcast_final(S* s) {
  if (s != nullptr && typeid(*s) == typeid(std::remove_pointer_t<T>)) return static_cast<T>(s);
  return nullptr;
}
}
#endif
