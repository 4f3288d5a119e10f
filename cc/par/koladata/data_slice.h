// Stand-in: a data-item or slice as far as loop conditions look into it.
#ifndef VERIF_KD_DATA_SLICE_H_
#define VERIF_KD_DATA_SLICE_H_
#include <string>
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/simple_qtype.h"
#include "arolla/util/unit.h"
#include "koladata/internal/dtype.h"
namespace koladata {
namespace internal {
class DataItem {
 public:
  DataItem() = default;
  DataItem(arolla::Unit) : kind_(1) {}
  DataItem(int v) : kind_(2), v_(v) {}
  bool has_value() const { return kind_ != 0; }
  template <typename T> bool holds_value() const {
    if constexpr (std::is_same_v<T, arolla::Unit>) return kind_ == 1;
    else return kind_ == 2;
  }
  int value() const { return v_; }
 private:
  int kind_ = 0, v_ = 0;
};
}
class DataSlice {
 public:
  DataSlice() = default;
  DataSlice(internal::DataItem item, schema::DType s, bool is_item = true) : item_(item), schema_(s), is_item_(is_item) {}
  bool is_item() const { return is_item_; }
  const internal::DataItem& item() const { return item_; }
  const schema::DType& GetSchemaImpl() const { return schema_; }
 private:
  internal::DataItem item_;
  schema::DType schema_ = schema::kNone;
  bool is_item_ = true;
};
}
namespace arolla {
template <> struct QTypeTraits<koladata::DataSlice> {
  static QTypePtr type() {
    static const SimpleQType* q = new SimpleQType(meta::type<koladata::DataSlice>(), "DATA_SLICE");
    return q;
  }
};
}
#endif
