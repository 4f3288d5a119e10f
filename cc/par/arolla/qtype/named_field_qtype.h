#ifndef VERIF_AROLLA_NAMED_FIELD_H_
#define VERIF_AROLLA_NAMED_FIELD_H_
#include <cstdint>
#include <optional>
#include <string>
#include "absl/types/span.h"
#include "arolla/qtype/qtype.h"
namespace arolla {
absl::Span<const std::string> GetFieldNames(QTypePtr q);
std::optional<int64_t> GetFieldIndexByName(QTypePtr q, absl::string_view name);
}
#endif
