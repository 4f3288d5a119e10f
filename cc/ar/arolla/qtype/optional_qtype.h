#ifndef VERIF_AR_OPT_QTYPE_H_
#define VERIF_AR_OPT_QTYPE_H_
#include "arolla/memory/optional_value.h"
#include "arolla/qtype/base_types.h"
namespace arolla {
template <typename T> struct QTypeTraits<OptionalValue<T>> {
  static QTypePtr type() {
    static const SimpleQType* q = new SimpleQType(meta::type<OptionalValue<T>>(), "OPTIONAL_" + std::string(GetQType<T>()->name()), GetQType<T>());
    return q;
  }
};
template <typename T> QTypePtr GetOptionalQType() { return GetQType<OptionalValue<T>>(); }
}
#endif
#ifndef AROLLA_DECLARE_OPTIONAL_QTYPE
#define AROLLA_DECLARE_OPTIONAL_QTYPE(NAME, ...) static_assert(true)
#define AROLLA_DEFINE_OPTIONAL_QTYPE(NAME, ...) static_assert(true)
#endif
