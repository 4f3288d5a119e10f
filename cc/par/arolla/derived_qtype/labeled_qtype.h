#ifndef VERIF_AROLLA_LABELED_H_
#define VERIF_AROLLA_LABELED_H_
#include "absl/strings/string_view.h"
#include "arolla/qtype/qtype.h"
namespace arolla {
QTypePtr GetLabeledQType(QTypePtr base, absl::string_view label);
absl::string_view GetQTypeLabel(QTypePtr q);
bool IsLabeledQType(QTypePtr q);
}
#endif
