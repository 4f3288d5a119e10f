#ifndef VERIF_KD_TEST_UTILS_H_
#define VERIF_KD_TEST_UTILS_H_
#include <optional>
#include "koladata/data_slice.h"
namespace koladata::test {
inline DataSlice DataItem(arolla::Unit, schema::DType s = schema::kMask) { return DataSlice(internal::DataItem(arolla::Unit()), s); }
inline DataSlice DataItem(std::nullopt_t, schema::DType s = schema::kNone) { return DataSlice(internal::DataItem(), s); }
inline DataSlice DataItem(int v, schema::DType s = schema::kInt32) { return DataSlice(internal::DataItem(v), s); }
}
#endif
