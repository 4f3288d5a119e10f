#ifndef VERIF_AROLLA_UNSPECIFIED_H_
#define VERIF_AROLLA_UNSPECIFIED_H_
#include "arolla/qtype/typed_value.h"
namespace arolla {
QTypePtr GetUnspecifiedQType();
const TypedValue& GetUnspecifiedQValue();
}
#endif
