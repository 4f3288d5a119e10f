#ifndef VERIF_AR_DA_TYPES_H_
#define VERIF_AR_DA_TYPES_H_
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/qtype_traits.h"
namespace arolla {
template <typename T> struct QTypeTraits<DenseArray<T>> {
  static QTypePtr type() {
    static const SimpleQType* q = new SimpleQType(meta::type<DenseArray<T>>(), "DENSE_ARRAY_" + std::string(GetQType<T>()->name()), GetQType<T>());
    return q;
  }
};
template <typename T> QTypePtr GetDenseArrayQType() { return GetQType<DenseArray<T>>(); }
}
#endif
#ifndef AROLLA_DECLARE_DENSE_ARRAY_QTYPE
#define AROLLA_DECLARE_DENSE_ARRAY_QTYPE(NAME, ...) static_assert(true)
#define AROLLA_DEFINE_DENSE_ARRAY_QTYPE(NAME, ...) static_assert(true)
#endif
