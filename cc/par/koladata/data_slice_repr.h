#ifndef VERIF_KD_DATA_SLICE_REPR_H_
#define VERIF_KD_DATA_SLICE_REPR_H_
#include <string>
#include "koladata/data_slice.h"
namespace koladata {
inline std::string DataSliceRepr(const DataSlice& x) {
  std::string v = !x.item().has_value() ? "None" : x.item().holds_value<arolla::Unit>() ? "present" : std::to_string(x.item().value());
  return std::string(x.is_item() ? "DataItem(" : "DataSlice([") + v + (x.is_item() ? "" : "]") + ", schema: " + schema::DTypeName(x.GetSchemaImpl()) + ")";
}
}
#endif
