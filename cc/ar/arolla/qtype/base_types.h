#ifndef VERIF_AROLLA_BASE_TYPES_H_
#define VERIF_AROLLA_BASE_TYPES_H_
#include <cstdint>
#include <string>
#include "arolla/qtype/simple_qtype.h"
#include "arolla/util/bytes.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
namespace arolla {
AROLLA_DECLARE_SIMPLE_QTYPE(INT32, int32_t);
AROLLA_DECLARE_SIMPLE_QTYPE(INT64, int64_t);
AROLLA_DECLARE_SIMPLE_QTYPE(UINT64, uint64_t);
AROLLA_DECLARE_SIMPLE_QTYPE(FLOAT32, float);
AROLLA_DECLARE_SIMPLE_QTYPE(FLOAT64, double);
AROLLA_DECLARE_SIMPLE_QTYPE(BOOLEAN, bool);
AROLLA_DECLARE_SIMPLE_QTYPE(BYTES, std::string);
AROLLA_DECLARE_SIMPLE_QTYPE(TEXT, Text);
AROLLA_DECLARE_SIMPLE_QTYPE(UNIT, Unit);
}
#endif
