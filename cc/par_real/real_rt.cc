#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include "verif_fatal.h"
void verif_fatal(const char* what) { std::fprintf(stderr, "FATAL: %s\n", what); std::fflush(stderr); std::abort(); }
uint64_t verif_unique() { static std::atomic<uint64_t> n{0}; return ++n; }
extern "C" void verif_quiet(int) {}
