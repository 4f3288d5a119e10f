#ifndef VERIF_AROLLA_REPR_TOKEN_EQ_H_
#define VERIF_AROLLA_REPR_TOKEN_EQ_H_
#include "arolla/util/repr.h"
#include "gmock/gmock.h"
namespace arolla::testing {
MATCHER_P(ReprTokenEq, s, "") { return arg.str == s; }
}
#endif
