#ifndef VERIF_AR_CANCELLATION_H_
#define VERIF_AR_CANCELLATION_H_
#include "absl/status/status.h"
namespace arolla {
inline bool Cancelled() { return false; }
inline absl::Status CheckCancellation() { return absl::OkStatus(); }
}
#endif
