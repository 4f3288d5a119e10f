// Stand-in for a header missing from the installed Abseil.
#ifndef VERIF_ABSL_NULLABILITY_H_
#define VERIF_ABSL_NULLABILITY_H_
#include "absl/base/attributes.h"
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#define ABSL_POINTERS_DEFAULT_NONNULL
#endif
