// boost::asio::thread_pool over the controlled scheduler: n workers that take
// tasks from one FIFO queue; stop() leaves the rest of the queue unexecuted.
#ifndef VERIF_MC_THREAD_POOL_H_
#define VERIF_MC_THREAD_POOL_H_
#include <deque>
#include <utility>
#include <vector>
#include "absl/functional/any_invocable.h"
#include "mc.h"
namespace boost::asio {
inline int verif_default_threads = 2;
inline int verif_workers = 0;      // alive, in the execution below
inline uint64_t verif_workers_of = 0;
inline int verif_live_workers() { return verif_workers_of == mc_execution() ? verif_workers : 0; }
inline int verif_pools = 0;        // that have not been destroyed
class thread_pool {
 public:
  using Fn = absl::AnyInvocable<void() &&>;
  explicit thread_pool(std::size_t n) : n_(n) { mc::Quiet q; ++verif_pools; }
  thread_pool() : thread_pool(verif_default_threads) {}
  ~thread_pool() {
    stop();
    join();
    std::deque<Fn> rest;
    { mc::Quiet q; rest.swap(queue_); }
    for (Fn& fn : rest) fn = nullptr;
    mc::Quiet q; if (!harness_) --verif_pools;
  }
  // A pool of the harness may end on one of its threads, which then waits for
  // ever and is forgotten.
  void verif_harness() { mc::Quiet q; harness_ = true; --verif_pools; }
  template <typename F> void verif_post(F&& f) {
    mc_point("post");
    Start();
    Fn fn(std::forward<F>(f));
    { mc::Quiet q; queue_.push_back(std::move(fn)); }
    mc_release(this);
  }
  void stop() { mc_point("stop"); { mc::Quiet q; stopped_ = true; } mc_release(this); }
  void join() {
    { mc::Quiet q; joining_ = true; }
    mc_release(this);
    std::vector<int> w; { mc::Quiet q; if (execution_ == mc_execution()) w = workers_; }
    for (int f : w) {
      MC_CHECK(f != mc_fiber() || harness_, "a thread of a pool waits for its own end");
      mc::Join(f);
    }
  }
 private:
  void Start() {
    mc::Quiet q;
    if (execution_ == mc_execution()) return;
    execution_ = mc_execution();
    workers_.clear();
    if (verif_workers_of != execution_) { verif_workers_of = execution_; verif_workers = 0; }
    verif_workers += n_;
    for (std::size_t i = 0; i < n_; ++i) workers_.push_back(mc::Spawn([this] { Work(); }, "worker", true, this));
  }
  void Work() {
    for (;;) {
      mc_wait([](void* p) { auto* t = static_cast<thread_pool*>(p); return t->stopped_ || t->joining_ || !t->queue_.empty(); }, this, this, "task");
      Fn fn;
      {
        mc::Quiet q;
        if (stopped_ || queue_.empty()) { --verif_workers; return; }
        fn = std::move(queue_.front());
        queue_.pop_front();
      }
      std::move(fn)();
    }
  }
  std::size_t n_;
  uint64_t execution_ = 0;
  bool stopped_ = false, joining_ = false, harness_ = false;
  std::deque<Fn> queue_;
  std::vector<int> workers_;
};
}  // namespace boost::asio
#endif
