// Stand-in for a header missing from the installed Abseil. A failed CHECK,
// DCHECK or LOG(FATAL) reports to the run-time in use and does not return.
#ifndef VERIF_ABSL_CHECK_H_
#define VERIF_ABSL_CHECK_H_
#include <sstream>
#include <string>
#include "verif_fatal.h"
namespace verif_log {
struct Fatal {
  std::string head;
  std::ostringstream os;
  Fatal(const char* file, int line, const char* what) { head = std::string(file) + ":" + std::to_string(line) + ": " + what; }
  [[noreturn]] ~Fatal() noexcept(false) { verif_fatal((head + " " + os.str()).c_str()); }
  template <typename T> Fatal& operator<<(const T& x) {
    if constexpr (requires(std::ostream& o) { o << x; }) os << x;
    return *this;
  }
};
struct Null { template <typename T> Null& operator<<(const T&) { return *this; } };
struct Voidify { void operator&(Fatal&) {} void operator&(Fatal&&) {} void operator&(Null&) {} void operator&(Null&&) {} };
}  // namespace verif_log
#define VERIF_CHECK_(cond, text) \
  (cond) ? (void)0 : ::verif_log::Voidify() & ::verif_log::Fatal(__FILE__, __LINE__, "CHECK failed: " text)
#define CHECK(c) VERIF_CHECK_((c), #c)
#define CHECK_EQ(a, b) VERIF_CHECK_((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) VERIF_CHECK_((a) != (b), #a " != " #b)
#define CHECK_LE(a, b) VERIF_CHECK_((a) <= (b), #a " <= " #b)
#define CHECK_LT(a, b) VERIF_CHECK_((a) < (b), #a " < " #b)
#define CHECK_GE(a, b) VERIF_CHECK_((a) >= (b), #a " >= " #b)
#define CHECK_GT(a, b) VERIF_CHECK_((a) > (b), #a " > " #b)
#define CHECK_OK(e) VERIF_CHECK_((e).ok(), #e " is OK")
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_OK(e) CHECK_OK(e)
#define QCHECK(c) CHECK(c)
#endif
