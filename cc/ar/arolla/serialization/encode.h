#ifndef VERIF_AR_ENCODE_H_
#define VERIF_AR_ENCODE_H_
#include <string>
#include <vector>
#include "absl/status/statusor.h"
#include "arolla/expr/quote.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/util/status_macros_backport.h"
namespace arolla::serialization {
struct ContainerProto { std::string text; std::string SerializeAsString() const { return text; } };
inline absl::StatusOr<ContainerProto> Encode(const std::vector<TypedValue>&, const std::vector<expr::ExprNodePtr>& e) {
  ContainerProto p; for (auto& x : e) p.text += x->text() + "\n"; return p;
}
}
#endif
