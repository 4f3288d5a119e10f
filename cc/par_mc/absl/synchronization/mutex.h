// absl::Mutex and CondVar over the controlled scheduler.
#ifndef VERIF_MC_MUTEX_H_
#define VERIF_MC_MUTEX_H_
#include "absl/base/config.h"
#include "absl/base/thread_annotations.h"
#include "absl/time/time.h"
#include "mc.h"
#include "verif_fatal.h"
struct verif_RawMutex { void Lock() {} void Unlock() {} };
namespace absl {
ABSL_NAMESPACE_BEGIN
class Condition {
 public:
  explicit Condition(const bool* b) : f_([b] { return *b; }) {}
  template <typename T> Condition(bool (*f)(T*), T* a) : f_([f, a] { return f(a); }) {}
  template <typename T> explicit Condition(const T* f) : f_([f] { return (*f)(); }) {}
  bool Eval() const { return f_(); }
 private:
  std::function<bool()> f_;
};
class Mutex {
 public:
  Mutex() {}
  Mutex(const Mutex&) = delete;
  void Lock() { mc_lock(this, 0); }
  void Unlock() { mc_unlock(this, 0); }
  bool TryLock() { return mc_trylock(this, 0); }
  void ReaderLock() { mc_lock(this, 1); }
  void ReaderUnlock() { mc_unlock(this, 1); }
  bool ReaderTryLock() { return mc_trylock(this, 1); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  bool try_lock() { return TryLock(); }
  void lock_shared() { ReaderLock(); }
  void unlock_shared() { ReaderUnlock(); }
  void AssertHeld() const { mc_held(const_cast<Mutex*>(this)); }
  void AssertReaderHeld() const { mc_held(const_cast<Mutex*>(this)); }
  void Await(const Condition& c) {
    for (;;) {
      if (c.Eval()) return;
      Unlock();
      mc_wait([](void* p) { return static_cast<const Condition*>(p)->Eval(); }, const_cast<Condition*>(&c), this, "Await");
      Lock();
    }
  }
  void LockWhen(const Condition& c) { Lock(); Await(c); }
 private:
  char state_[8];
};
template <int N> class VerifLock {
 public:
  explicit VerifLock(Mutex& m) : m_(&m) { mc_lock(m_, N == 1); }
  explicit VerifLock(Mutex* m) : m_(m) { mc_lock(m_, N == 1); }
  ~VerifLock() { if (m_) mc_unlock(m_, N == 1); }
  void Release() { mc_unlock(m_, N == 1); m_ = nullptr; }
  VerifLock(const VerifLock&) = delete;
 private:
  Mutex* m_;
};
using MutexLock = VerifLock<0>;
using ReaderMutexLock = VerifLock<1>;
using WriterMutexLock = VerifLock<2>;
using ReleasableMutexLock = VerifLock<3>;
class MutexLockMaybe {
 public:
  explicit MutexLockMaybe(Mutex* m) : m_(m) { if (m_) m_->Lock(); }
  ~MutexLockMaybe() { if (m_) m_->Unlock(); }
 private:
  Mutex* m_;
};
class CondVar {
 public:
  void Wait(Mutex* m) {
    uint64_t t;
    mc_point("Wait");
    { mc::Quiet q; t = next_++; }
    mc_note(this);
    struct A { CondVar* c; uint64_t t; } a{this, t};
    m->Unlock();
    mc_wait([](void* p) { auto* a = static_cast<A*>(p); return a->t < a->c->woken_; }, &a, this, "CondVar");
    m->Lock();
  }
  void Signal() { mc_point("Signal"); { mc::Quiet q; if (woken_ < next_) ++woken_; } mc_release(this); }
  void SignalAll() { mc_point("SignalAll"); { mc::Quiet q; woken_ = next_; } mc_release(this); }
 private:
  uint64_t next_ = 0, woken_ = 0;
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
