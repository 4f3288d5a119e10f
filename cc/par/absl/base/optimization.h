#include_next "absl/base/optimization.h"
#ifndef ABSL_UNREACHABLE
#define ABSL_UNREACHABLE() ::verif_unreachable()
#include "verif_fatal.h"
[[noreturn]] inline void verif_unreachable() { verif_fatal("ABSL_UNREACHABLE was reached"); }
#endif
