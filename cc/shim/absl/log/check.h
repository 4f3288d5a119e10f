// Stand-in for absl/log/check.h (not in the installed Abseil).  A failed check
// ends the process with a message, as it does in the original.
#ifndef VERIF_SHIM_CHECK_H_
#define VERIF_SHIM_CHECK_H_
#include <cstdio>
#include <cstdlib>
namespace verif_shim {
struct NullStream {
  template <typename T> NullStream& operator<<(const T&) { return *this; }
};
inline void CheckFailed(const char* file, int line, const char* what) {
  std::fprintf(stderr, "CHECK failed: %s:%d: %s\n", file, line, what);
  std::fflush(stderr);
  std::abort();
}
struct Voidify { void operator&(NullStream&) {} void operator&(NullStream&&) {} };
}  // namespace verif_shim
#define VERIF_CHECK_(cond, text)                                             \
  (cond) ? (void)0                                                           \
         : ::verif_shim::Voidify() &                                         \
               (::verif_shim::CheckFailed(__FILE__, __LINE__, text),         \
                ::verif_shim::NullStream())
#define CHECK(c) VERIF_CHECK_((c), #c)
#define CHECK_EQ(a, b) VERIF_CHECK_((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) VERIF_CHECK_((a) != (b), #a " != " #b)
#define CHECK_LE(a, b) VERIF_CHECK_((a) <= (b), #a " <= " #b)
#define CHECK_LT(a, b) VERIF_CHECK_((a) < (b), #a " < " #b)
#define CHECK_GE(a, b) VERIF_CHECK_((a) >= (b), #a " >= " #b)
#define CHECK_GT(a, b) VERIF_CHECK_((a) > (b), #a " > " #b)
#define CHECK_OK(e) VERIF_CHECK_((e).ok(), #e " is OK")
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_OK(e) CHECK_OK(e)
#endif
