#ifndef VERIF_AROLLA_DERIVED_QTYPE_H_
#define VERIF_AROLLA_DERIVED_QTYPE_H_
#include "arolla/qtype/typed_ref.h"
namespace arolla {
inline TypedRef DecayDerivedQValue(TypedRef r) { return TypedRef::UnsafeFromRawPointer(DecayDerivedQType(r.GetType()), r.GetRawPointer()); }
inline TypedRef UnsafeDowncastDerivedQValue(QTypePtr q, TypedRef r) { return TypedRef::UnsafeFromRawPointer(q, r.GetRawPointer()); }
}
#endif
