#ifndef VERIF_AROLLA_TUPLE_QTYPE_H_
#define VERIF_AROLLA_TUPLE_QTYPE_H_
#include <string>
#include <vector>
#include "absl/types/span.h"
#include "arolla/qtype/named_field_qtype.h"
#include "arolla/qtype/typed_value.h"
namespace arolla {
QTypePtr MakeTupleQType(absl::Span<const QTypePtr> fields);
QTypePtr MakeNamedTupleQType(absl::Span<const std::string> names, absl::Span<const QTypePtr> fields);
bool IsTupleQType(QTypePtr q);
bool IsNamedTupleQType(QTypePtr q);
TypedValue MakeTuple(absl::Span<const TypedRef> fields);
inline TypedValue MakeTuple(absl::Span<const TypedValue> fields) {
  std::vector<TypedRef> r; for (auto& f : fields) r.push_back(f.AsRef());
  return MakeTuple(absl::Span<const TypedRef>(r));
}
inline TypedValue MakeTuple(const std::vector<TypedRef>& fields) { return MakeTuple(absl::Span<const TypedRef>(fields)); }
inline TypedValue MakeTuple(std::initializer_list<TypedRef> fields) { return MakeTuple(absl::Span<const TypedRef>(fields.begin(), fields.size())); }
absl::StatusOr<TypedValue> MakeNamedTuple(absl::Span<const std::string> names, absl::Span<const TypedRef> fields);
inline absl::StatusOr<TypedValue> MakeNamedTuple(std::initializer_list<std::string> names, std::initializer_list<TypedRef> fields) {
  return MakeNamedTuple(absl::Span<const std::string>(names.begin(), names.size()), absl::Span<const TypedRef>(fields.begin(), fields.size()));
}
}
#endif
