#ifndef VERIF_REAL_BARRIER_H_
#define VERIF_REAL_BARRIER_H_
#include <condition_variable>
#include <mutex>
namespace absl {
class Barrier {
 public:
  explicit Barrier(int n) : n_(n) {}
  bool Block() {
    std::unique_lock<std::mutex> l(m_);
    ++k_;
    c_.notify_all();
    c_.wait(l, [&] { return k_ >= n_; });
    return ++out_ == n_;
  }
 private:
  std::mutex m_;
  std::condition_variable c_;
  int n_, k_ = 0, out_ = 0;
};
}
#endif
