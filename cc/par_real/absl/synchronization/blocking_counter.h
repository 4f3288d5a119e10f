#ifndef VERIF_REAL_BLOCKING_COUNTER_H_
#define VERIF_REAL_BLOCKING_COUNTER_H_
#include <condition_variable>
#include <mutex>
namespace absl {
class BlockingCounter {
 public:
  explicit BlockingCounter(int n) : n_(n) {}
  bool DecrementCount() { std::lock_guard<std::mutex> l(m_); if (--n_ == 0) { c_.notify_all(); return true; } return false; }
  void Wait() { std::unique_lock<std::mutex> l(m_); c_.wait(l, [&] { return n_ == 0; }); }
 private:
  std::mutex m_;
  std::condition_variable c_;
  int n_;
};
}
#endif
