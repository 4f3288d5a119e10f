#ifndef VERIF_AR_BITS_H_
#define VERIF_AR_BITS_H_
#include "absl/numeric/bits.h"
namespace arolla {
template <typename W> void SetBit(W* b, size_t i) { b[i / (sizeof(W) * 8)] |= W{1} << (i % (sizeof(W) * 8)); }
}
#endif
