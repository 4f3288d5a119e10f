#include "common.h"
namespace arolla {
void FingerprintHasherTraits<Big>::operator()(FingerprintHasher* h, const Big& v) const { h->Combine(v.s); }
ReprToken ReprTraits<Big>::operator()(const Big& v) const { return ReprToken{v.s}; }
AROLLA_DEFINE_SIMPLE_QTYPE(BIG, Big);
}
