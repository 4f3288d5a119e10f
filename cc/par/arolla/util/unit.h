#ifndef VERIF_AROLLA_UNIT_H_
#define VERIF_AROLLA_UNIT_H_
#include <variant>
namespace arolla {
using Unit = std::monostate;
inline constexpr Unit kUnit{};
}
#endif
