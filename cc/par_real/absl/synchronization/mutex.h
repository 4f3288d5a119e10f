// absl::Mutex over the standard library (used with plain threads).
#ifndef VERIF_REAL_MUTEX_H_
#define VERIF_REAL_MUTEX_H_
#include <condition_variable>
#include <mutex>
#include "absl/base/config.h"
#include "absl/base/thread_annotations.h"
#include "absl/time/time.h"
#include "verif_fatal.h"
struct verif_RawMutex { std::mutex m; void Lock() { m.lock(); } void Unlock() { m.unlock(); } };
namespace absl {
ABSL_NAMESPACE_BEGIN
class Mutex {
 public:
  void Lock() { m_.lock(); }
  void Unlock() { m_.unlock(); }
  bool TryLock() { return m_.try_lock(); }
  void ReaderLock() { m_.lock(); }
  void ReaderUnlock() { m_.unlock(); }
  void WriterLock() { m_.lock(); }
  void WriterUnlock() { m_.unlock(); }
  void lock() { m_.lock(); }
  void unlock() { m_.unlock(); }
  bool try_lock() { return m_.try_lock(); }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
  std::mutex m_;
};
template <int N> class VerifLock {
 public:
  explicit VerifLock(Mutex& m) : m_(&m) { m_->Lock(); }
  explicit VerifLock(Mutex* m) : m_(m) { m_->Lock(); }
  ~VerifLock() { if (m_) m_->Unlock(); }
  void Release() { m_->Unlock(); m_ = nullptr; }
  VerifLock(const VerifLock&) = delete;
 private:
  Mutex* m_;
};
using MutexLock = VerifLock<0>;
using ReaderMutexLock = VerifLock<1>;
using WriterMutexLock = VerifLock<2>;
using ReleasableMutexLock = VerifLock<3>;
ABSL_NAMESPACE_END
}  // namespace absl
#endif
