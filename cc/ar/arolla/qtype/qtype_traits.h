#ifndef VERIF_AROLLA_QTYPE_TRAITS_H_
#define VERIF_AROLLA_QTYPE_TRAITS_H_
#include "arolla/qtype/qtype.h"
#endif
