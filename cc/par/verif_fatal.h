#ifndef VERIF_FATAL_H_
#define VERIF_FATAL_H_
#include <cstdint>
// Supplied by the run-time in use (the model checker, or plain threads).
[[noreturn]] void verif_fatal(const char* what);
uint64_t verif_unique();  // a value not returned before
#endif
