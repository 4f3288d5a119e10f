// absl::call_once over the controlled scheduler.
#ifndef VERIF_MC_CALL_ONCE_H_
#define VERIF_MC_CALL_ONCE_H_
#include <functional>
#include <utility>
#include "absl/base/config.h"
#include "mc.h"
extern "C" { int __cxa_guard_acquire(uint64_t*); void __cxa_guard_release(uint64_t*); }
namespace absl {
ABSL_NAMESPACE_BEGIN
class once_flag {
 public:
  constexpr once_flag() {}
  once_flag(const once_flag&) = delete;
  uint64_t verif_guard = 0;
};
template <typename F, typename... A> void call_once(absl::once_flag& flag, F&& fn, A&&... args) {
  if (!__cxa_guard_acquire(&flag.verif_guard)) return;
  std::invoke(std::forward<F>(fn), std::forward<A>(args)...);
  __cxa_guard_release(&flag.verif_guard);
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
