#ifndef VERIF_MC_NOTIFICATION_H_
#define VERIF_MC_NOTIFICATION_H_
#include "absl/synchronization/mutex.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class Notification {
 public:
  bool HasBeenNotified() const {
    mc_point("HasBeenNotified");
    bool r; { mc::Quiet q; r = n_; }
    mc_acquire(const_cast<Notification*>(this));
    return r;
  }
  void Notify() { mc_point("Notify"); { mc::Quiet q; n_ = true; } mc_release(this); }
  void WaitForNotification() const {
    mc_wait([](void* p) { return static_cast<Notification*>(p)->n_; }, const_cast<Notification*>(this), const_cast<Notification*>(this), "Notification");
  }
  bool WaitForNotificationWithTimeout(absl::Duration) const { WaitForNotification(); return true; }
 private:
  bool n_ = false;
};
ABSL_NAMESPACE_END
}
#endif
