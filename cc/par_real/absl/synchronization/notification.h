#ifndef VERIF_REAL_NOTIFICATION_H_
#define VERIF_REAL_NOTIFICATION_H_
#include <chrono>
#include <condition_variable>
#include <mutex>
#include "absl/time/time.h"
namespace absl {
class Notification {
 public:
  bool HasBeenNotified() const { std::lock_guard<std::mutex> l(m_); return n_; }
  void Notify() { std::lock_guard<std::mutex> l(m_); n_ = true; c_.notify_all(); }
  void WaitForNotification() const { std::unique_lock<std::mutex> l(m_); c_.wait(l, [&] { return n_; }); }
  bool WaitForNotificationWithTimeout(absl::Duration d) const {
    std::unique_lock<std::mutex> l(m_);
    return c_.wait_for(l, absl::ToChronoNanoseconds(d), [&] { return n_; });
  }
 private:
  mutable std::mutex m_;
  mutable std::condition_variable c_;
  bool n_ = false;
};
}
#endif
