#ifndef VERIF_AR_UNIT_H_
#define VERIF_AR_UNIT_H_
#include <variant>
namespace arolla {
using Unit = std::monostate;
constexpr Unit kUnit = Unit();
}
#endif
