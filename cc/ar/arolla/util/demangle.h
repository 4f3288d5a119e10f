#ifndef VERIF_AROLLA_DEMANGLE_H_
#define VERIF_AROLLA_DEMANGLE_H_
#include <string>
#include <typeinfo>
namespace arolla {
inline std::string TypeName(const std::type_info& t) { return t.name(); }
template <class T> std::string TypeName() { return TypeName(typeid(T)); }
}  // namespace arolla
#endif
