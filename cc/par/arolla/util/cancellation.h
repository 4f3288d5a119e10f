// Stand-in for arolla's cooperative cancellation.
#ifndef VERIF_AROLLA_CANCELLATION_H_
#define VERIF_AROLLA_CANCELLATION_H_
#include <atomic>
#include <cstdint>
#include <memory>
#include <utility>
#include <vector>
#include "absl/functional/any_invocable.h"
#include "absl/status/status.h"
#include "absl/synchronization/mutex.h"
namespace arolla {
class CancellationContext;
using CancellationContextPtr = std::shared_ptr<CancellationContext>;
class CancellationContext : public std::enable_shared_from_this<CancellationContext> {
  struct Tag {};
 public:
  using Callback = absl::AnyInvocable<void() &&>;
  class [[nodiscard]] Subscription {
   public:
    Subscription() = default;
    Subscription(Subscription&& o) : ctx_(std::move(o.ctx_)), id_(std::exchange(o.id_, 0)) {}
    Subscription& operator=(Subscription&& o) {
      if (this != &o) { Reset(); ctx_ = std::move(o.ctx_); id_ = std::exchange(o.id_, 0); }
      return *this;
    }
    ~Subscription() { Reset(); }
    void Detach() && { ctx_.reset(); id_ = 0; }
   private:
    friend class CancellationContext;
    void Reset() {
      if (auto c = std::move(ctx_)) c->Unsubscribe(id_);
      ctx_.reset();
      id_ = 0;
    }
    CancellationContextPtr ctx_;
    uint64_t id_ = 0;
  };
  class [[nodiscard]] ScopeGuard {
   public:
    ScopeGuard() : ScopeGuard(Make()) {}
    explicit ScopeGuard(CancellationContextPtr c) : ctx_(std::move(c)), prev_(std::exchange(current_, ctx_.get())) {}
    ~ScopeGuard() { current_ = prev_; }
    ScopeGuard(const ScopeGuard&) = delete;
    ScopeGuard& operator=(const ScopeGuard&) = delete;
    CancellationContext* cancellation_context() const { return ctx_.get(); }
    static CancellationContext* current_cancellation_context() { return current_; }
   private:
    const CancellationContextPtr ctx_;
    CancellationContext* const prev_;
    static inline thread_local constinit CancellationContext* current_ = nullptr;
  };
  explicit CancellationContext(Tag) {}
  static CancellationContextPtr Make() { return std::make_shared<CancellationContext>(Tag{}); }
  bool Cancelled() const { return cancelled_.load(std::memory_order_relaxed); }
  absl::Status GetStatus() const { absl::MutexLock l(mutex_); return status_; }
  void Cancel(absl::Status s = absl::CancelledError("")) {
    if (s.ok()) return;
    std::vector<std::pair<uint64_t, Callback>> cbs;
    {
      absl::MutexLock l(mutex_);
      if (!status_.ok()) return;
      status_ = std::move(s);
      cancelled_.store(true, std::memory_order_relaxed);
      cbs.swap(callbacks_);
    }
    for (auto& [id, cb] : cbs) std::move(cb)();
  }
  Subscription Subscribe(Callback&& cb) {
    {
      absl::MutexLock l(mutex_);
      if (status_.ok()) {
        Subscription s;
        s.ctx_ = shared_from_this();
        s.id_ = ++last_id_;
        callbacks_.emplace_back(last_id_, std::move(cb));
        return s;
      }
    }
    std::move(cb)();
    return {};
  }
 private:
  void Unsubscribe(uint64_t id) {
    Callback dead;
    absl::MutexLock l(mutex_);
    for (size_t i = 0; i < callbacks_.size(); ++i) {
      if (callbacks_[i].first == id) {
        dead = std::move(callbacks_[i].second);
        callbacks_.erase(callbacks_.begin() + i);
        break;
      }
    }
  }
  std::atomic<bool> cancelled_ = false;
  mutable absl::Mutex mutex_;
  absl::Status status_;
  uint64_t last_id_ = 0;
  std::vector<std::pair<uint64_t, Callback>> callbacks_;
};
inline CancellationContextPtr CurrentCancellationContext() {
  auto* c = CancellationContext::ScopeGuard::current_cancellation_context();
  return c ? c->shared_from_this() : nullptr;
}
inline bool Cancelled() {
  auto* c = CancellationContext::ScopeGuard::current_cancellation_context();
  return c != nullptr && c->Cancelled();
}
inline absl::Status CheckCancellation() {
  auto* c = CancellationContext::ScopeGuard::current_cancellation_context();
  return c != nullptr && c->Cancelled() ? c->GetStatus() : absl::OkStatus();
}
}  // namespace arolla
#endif
