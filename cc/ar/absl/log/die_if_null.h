#ifndef VERIF_ABSL_DIE_IF_NULL_H_
#define VERIF_ABSL_DIE_IF_NULL_H_
#include "absl/log/check.h"
#define ABSL_DIE_IF_NULL(x) (x)
#endif
