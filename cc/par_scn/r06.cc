// R06: executors, the current executor, context guards.
#include "common.h"
#include "koladata/functor/parallel/asio_executor.h"
#include "koladata/functor/parallel/context_guard.h"
#include "koladata/functor/parallel/default_asio_executor.h"
#include "koladata/functor/parallel/derived_executor.h"
#include "koladata/functor/parallel/get_default_executor.h"
#include "koladata/functor/parallel/make_executor.h"
using namespace scn;

namespace {
kp::Executor* Current() {
  auto c = kp::CurrentExecutor();
  if (!c.ok()) { MC_CHECK(kp::CurrentExecutorScopeGuard::current_executor() == nullptr, "CurrentExecutor() fails though there is one"); return nullptr; }
  MC_CHECK((*c).get() == kp::CurrentExecutorScopeGuard::current_executor(), "two answers about the current executor");
  return (*c).get();
}
// 'e' eager, 'm' 'n' made with 1 or 2 threads, 'M' any number, 'd' the default, 'D' derived from
// the default, 'E' derived from eager, 'N' derived from one with 1 thread,
// '1', 'f' of the harness.
ExecutorPtr Kind(char k) {
  auto none = [](kp::ContextGuard&) {};
  switch (k) {
    case 'm': return kp::MakeExecutor(1);
    case 'n': return kp::MakeAsioExecutor(2);
    case 'M': return kp::MakeExecutor(0);
    case 'd': return kp::GetDefaultExecutor();
    case 'D': return std::make_shared<kp::DerivedExecutor>(kp::GetDefaultExecutor(), none);
    case 'E': return std::make_shared<kp::DerivedExecutor>(kp::GetEagerExecutor(), none);
    case 'N': return std::make_shared<kp::DerivedExecutor>(kp::MakeExecutor(1), none);
    default: return Exec(k);
  }
}
// A task that must run once, on `ex`, and be destroyed.
struct Token {
  std::array<std::atomic<int>, 16> runs{}, dead{};
};
struct Task {
  std::shared_ptr<Token> t;
  int id;
  kp::Executor* ex;
  std::function<void()> then;
  bool live = true;
  Task(std::shared_ptr<Token> t, int id, kp::Executor* ex, std::function<void()> then = nullptr) : t(std::move(t)), id(id), ex(ex), then(std::move(then)) {}
  Task(Task&& o) : t(std::move(o.t)), id(o.id), ex(o.ex), then(std::move(o.then)), live(std::exchange(o.live, false)) {}
  ~Task() { if (live) t->dead[id].fetch_add(1); }
  void operator()() && {
    MC_CHECK(live, "a task that was moved away is run");
    MC_CHECK(kp::IsExecutorTask(), "a task does not know that it is one");
    MC_CHECK(Current() == ex, "a task runs with another current executor");
    MC_CHECK(t->runs[id].fetch_add(1) == 0, "a task runs twice");
    if (then) then();
    MC_CHECK(kp::IsExecutorTask() && Current() == ex, "the current executor has changed in a task");
  }
};
void AllRan(const Token& t, int n) {
  for (int i = 0; i < n; ++i) {
    MC_CHECK(t.runs[i].load() == 1, "a task did not run");
    MC_CHECK(t.dead[i].load() == 1, "a task is kept, or destroyed twice");
  }
}
void NoWorkers() {
  (void)kp::GetDefaultExecutor();
  MC_CHECK(boost::asio::verif_pools == 1, "the threads of an executor outlive it");
}
// Contexts that record what happens.
struct Rec { std::vector<int> v; };
template <int kBytes> struct Ctx {
  Rec* r; int id; kp::Executor** ex;
  char pad[kBytes];
  Ctx(Rec* r, int id, kp::Executor** ex) : r(r), id(id), ex(ex) { r->v.push_back(id); MC_CHECK(Current() == *ex && kp::IsExecutorTask(), "a context is set up with another current executor"); }
  Ctx(const Ctx&) = delete;
  ~Ctx() { r->v.push_back(-id); MC_CHECK(Current() == *ex && kp::IsExecutorTask(), "a context is torn down with another current executor"); }
};
int live_objects = 0;
template <int kBytes> struct Obj {
  char pad[kBytes];
  std::unique_ptr<int> p;
  Obj(std::unique_ptr<int> q, int want, int& out) : p(std::move(q)) { MC_CHECK(p && *p == want, "an argument is lost"); out = want; ++live_objects; memset(pad, want, kBytes); }
  ~Obj() { --live_objects; for (char c : pad) MC_CHECK(c == (char)*p, "a context was overwritten"); }
};
template <int... kSizes> void GuardSizes(std::integer_sequence<int, kSizes...>) {
  auto one = [](auto size) {
    constexpr int n = decltype(size)::value + 1;
    int out = 0;
    { kp::ContextGuard g; MC_CHECK(live_objects == 0, "an empty guard"); g.init<Obj<n>>(std::make_unique<int>(n), n, out); MC_CHECK(out == n && live_objects == 1, "init"); }
    MC_CHECK(live_objects == 0, "a context was not destroyed once");
    { kp::ContextGuard g(std::in_place_type<Obj<n>>, std::make_unique<int>(n), n, out); MC_CHECK(live_objects == 1, "in place"); }
    MC_CHECK(live_objects == 0, "a context was not destroyed once");
  };
  (one(std::integral_constant<int, kSizes>{}), ...);
}
// Nested scopes: every sequence of things that change the current executor.
struct World { ExecutorPtr a, b; };
void Nest(const World& w, int depth, kp::Executor* cur, bool task) {
  MC_CHECK(Current() == cur && kp::IsExecutorTask() == task, "the current executor is wrong in a nested scope");
  if (!depth) return;
  for (int op = 0; op < 7; ++op) {
    switch (op) {
      case 0: { kp::CurrentExecutorScopeGuard g(w.a); Nest(w, depth - 1, w.a.get(), task); break; }
      case 1: { kp::CurrentExecutorScopeGuard g(w.b); Nest(w, depth - 1, w.b.get(), task); break; }
      case 2: { kp::CurrentExecutorScopeGuard g(nullptr); Nest(w, depth - 1, nullptr, task); break; }
      case 3: { kp::ProvideDefaultCurrentExecutorScopeGuard g; Nest(w, depth - 1, cur ? cur : kp::GetDefaultExecutor().get(), task); break; }
      case 4: kp::GetEagerExecutor()->Schedule([&] { Nest(w, depth - 1, kp::GetEagerExecutor().get(), true); }); break;
      case 5: w.b->Schedule([&] { Nest(w, depth - 1, w.b.get(), true); }); break;   // derived from eager
      case 6: { kp::CurrentExecutorScopeGuard g(std::make_shared<DeadExecutor>()); Nest(w, depth - 1, kp::CurrentExecutorScopeGuard::current_executor(), task); break; }
    }
    MC_CHECK(Current() == cur && kp::IsExecutorTask() == task, "the current executor is not restored");
  }
}
}  // namespace

SCENARIOS {
  const std::string kinds = "emnMdDEN1f";
  // Tasks from several threads: each exactly once.
  for (char k : kinds) for (int threads = 1; threads < 3; ++threads) for (int per = 1; per < 3; ++per) {
    mc::Register("tasks" + N("[executor=%c,threads=%d,tasks=%d]", k, threads, per), [=] {
      auto t = std::make_shared<Token>();
      {
        auto ex = Kind(k);
        for (int i = 0; i < threads; ++i) mc::Spawn([=] {
          for (int j = 0; j < per; ++j) {
            ex->Schedule(Task(t, i * per + j, ex.get()));
            MC_CHECK(!Current() && !kp::IsExecutorTask(), "a thread that schedules becomes a task");
          }
        }, "thread");
      }
      mc::Quiesce();
      AllRan(*t, threads * per);
      NoWorkers();
    }, threads * per > 2 ? 2 : 3);
  }
  // The limit on the number of threads.
  for (int n = 1; n < 4; ++n) mc::Register(N("limit[%d]", n), [=] {
    auto now = std::make_shared<std::atomic<int>>(0);
    auto t = std::make_shared<Token>();
    auto ex = kp::MakeExecutor(n);
    for (int i = 0; i < n + 1; ++i) ex->Schedule(Task(t, i, ex.get(), [=] {
      MC_CHECK(now->fetch_add(1) < n, "more tasks at a time than threads allowed");
      now->fetch_sub(1);
    }));
    ex.reset();
    mc::Quiesce();
    AllRan(*t, n + 1);
  }, n > 2 ? 1 : 2);
  // Tasks that schedule tasks, there or elsewhere.
  for (char k : std::string("emndEN")) for (char l : std::string("emdEN")) mc::Register("nested" + N("[%c,%c]", k, l), [=] {
    auto t = std::make_shared<Token>();
    {
      auto a = Kind(k), b = Kind(l);
      a->Schedule(Task(t, 0, a.get(), [t, a = a.get(), b] {
        b->Schedule(Task(t, 1, b.get(), [t, a = a->shared_from_this()] { a->Schedule(Task(t, 2, a.get())); }));
        MC_CHECK(Current() == a && kp::IsExecutorTask(), "after a nested task");
      }));
      MC_CHECK(!Current() && !kp::IsExecutorTask(), "after a task");
    }
    mc::Quiesce();
    AllRan(*t, 3);
    NoWorkers();
  }, 2);
  // A task that holds the last reference of its executor.
  for (char k : kinds) for (int more = 0; more < 2; ++more) mc::Register("last-reference" + N("[executor=%c,more=%d]", k, more), [=] {
    auto t = std::make_shared<Token>();
    auto ex = Kind(k);
    auto* p = ex.get();
    mc::Spawn([=, ex = std::move(ex)]() mutable {
      auto hold = std::make_shared<ExecutorPtr>(ex);
      ex->Schedule(Task(t, 0, p, [hold, p] { hold->reset(); MC_CHECK(Current() == p, "the executor goes during its task"); }));
      if (more) ex->Schedule(Task(t, 1, p));
      hold.reset();
      ex.reset();
    }, "thread");
    mc::Quiesce();
    AllRan(*t, 1 + more);
    NoWorkers();
  }, 3);
  // Let go while tasks are being scheduled from another thread.
  for (char k : std::string("mnN")) mc::Register("let-go" + N("[executor=%c]", k), [=] {
    auto t = std::make_shared<Token>();
    auto ex = Kind(k);
    mc::Spawn([t, ex]() mutable { ex->Schedule(Task(t, 0, ex.get())); ex.reset(); }, "thread");
    mc::Spawn([t, ex]() mutable { ex->Schedule(Task(t, 1, ex.get())); ex.reset(); }, "thread");
    ex.reset();
    mc::Quiesce();
    AllRan(*t, 2);
    NoWorkers();
  }, 3);
  // A weak reference to the current executor, from a task.
  for (char k : std::string("mE")) mc::Register("current-keeps" + N("[executor=%c]", k), [=] {
    auto kept = std::make_shared<ExecutorPtr>();
    auto t = std::make_shared<Token>();
    {
      auto ex = Kind(k);
      ex->Schedule(Task(t, 0, ex.get(), [kept] { *kept = *kp::CurrentExecutor(); }));
    }
    mc::Quiesce();
    (*kept)->Schedule(Task(t, 1, (*kept).get()));
    kept->reset();
    mc::Quiesce();
    AllRan(*t, 2);
    NoWorkers();
  }, 2);
  // Singletons, made by two threads at once.
  mc::Register("singletons", [=] {
    for (int k = 0; k < 2; ++k) mc::Spawn([] {
      auto a = kp::GetDefaultExecutor(), b = kp::GetEagerExecutor();
      MC_CHECK(a && b && a.get() == kp::GetDefaultExecutor().get() && b.get() == kp::GetEagerExecutor().get() && a != b, "the default executor changes");
      MC_CHECK(a.get() == kp::GetDefaultAsioExecutor().get(), "default");
    }, "thread");
    auto x = kp::MakeExecutor(1), y = kp::MakeExecutor(1);
    MC_CHECK(x != y && x->uuid() != y->uuid() && x->uuid() == x->uuid(), "uuid");
  }, 3);
  // Scopes in two threads do not see each other.
  mc::Register("scopes-threads", [=] {
    auto a = Exec('1'), b = Exec('f');
    for (int k = 0; k < 2; ++k) mc::Spawn([ex = k ? a : b] {
      MC_CHECK(!Current(), "a new thread has an executor");
      { kp::CurrentExecutorScopeGuard g(ex); MC_CHECK(Current() == ex.get(), "scope"); mc_point("x"); MC_CHECK(Current() == ex.get() && !kp::IsExecutorTask(), "scope"); }
      MC_CHECK(!Current(), "a scope is not left");
    }, "thread");
  }, 4);
  // A scope within a task, and what the task schedules does not inherit it.
  mc::Register("scope-in-task", [=] {
    auto t = std::make_shared<Token>();
    auto a = Exec('1'), b = Exec('f');
    auto* pa = a.get();
    a->Schedule(Task(t, 0, pa, [=] {
      kp::CurrentExecutorScopeGuard g(b);
      MC_CHECK(Current() == b.get() && kp::IsExecutorTask(), "a scope in a task");
      a->Schedule(Task(t, 1, pa));
    }));
    a.reset();
    mc::Quiesce();
    AllRan(*t, 2);
  }, 3);
  for (int task = 0; task < 2; ++task) mc::Register(N("nesting[%d]", task), [=] {
    World w{Exec('1'), Kind('E')};
    if (task) { auto ex = Exec('e'); ex->Schedule([&] { Nest(w, 3, ex.get(), true); }); }
    else Nest(w, 4, nullptr, false);
    MC_CHECK(!Current() && !kp::IsExecutorTask(), "in the end");
  }, 0);
  // Context guards.
  mc::Register("guard-sizes", [=] { GuardSizes(std::make_integer_sequence<int, 80>{}); }, 0);
  for (int depth = 1; depth < 4; ++depth) for (char base : std::string("emf")) for (int big = 0; big < 2; ++big) for (int tasks = 1; tasks < 3; ++tasks) {
    if (base == 'f' && tasks > 1) continue;
    mc::Register("contexts" + N("[depth=%d,base=%c,big=%d,tasks=%d]", depth, base, big, tasks), [=] {
      // ex[0] is `base`; ex[k] is derived from ex[k-1] and has the context k.
      auto rec = std::make_shared<Rec>();
      std::array<kp::Executor*, 4> ptr{};
      auto ptrs = std::make_shared<std::array<kp::Executor*, 4>>();
      ExecutorPtr ex = Kind(base);
      (*ptrs)[0] = ex.get();
      for (int d = 1; d <= depth; ++d) {
        ex = std::make_shared<kp::DerivedExecutor>(ex, [rec, d, ptrs, big](kp::ContextGuard& g) {
          if (big) g.init<Ctx<64>>(rec.get(), d, &(*ptrs)[d]); else g.init<Ctx<1>>(rec.get(), d, &(*ptrs)[d]);
        });
        (*ptrs)[d] = ex.get();
      }
      auto t = std::make_shared<Token>();
      for (int i = 0; i < tasks; ++i) ex->Schedule(Task(t, i, ex.get(), [rec] { rec->v.push_back(100); }));
      ex.reset();
      mc::Quiesce();
      AllRan(*t, tasks);
      std::vector<int> one, want;
      for (int d = 1; d <= depth; ++d) one.push_back(d);
      one.push_back(100);
      for (int d = depth; d > 0; --d) one.push_back(-d);
      for (int i = 0; i < tasks; ++i) want.insert(want.end(), one.begin(), one.end());
      MC_CHECK(rec->v == want, "contexts around the tasks: " + Show(rec->v));
      (void)ptr;
    }, base == 'f' ? 2 : 3);
  }
  // Each task has a context of its own, also when they overlap.
  for (char k : std::string("2f")) mc::Register("contexts-overlap" + N("[executor=%c]", k), [=] {
    struct C { std::shared_ptr<std::atomic<int>> n; ~C() { n->fetch_sub(1); } };
    auto n = std::make_shared<std::atomic<int>>(0), made = std::make_shared<std::atomic<int>>(0);
    auto ex = std::make_shared<kp::DerivedExecutor>(Exec(k), [n, made](kp::ContextGuard& g) { made->fetch_add(1); n->fetch_add(1); g.init<C>(n); });
    auto t = std::make_shared<Token>();
    for (int i = 0; i < 2; ++i) ex->Schedule(Task(t, i, ex.get(), [n] { MC_CHECK(n->load() >= 1, "no context during a task"); }));
    ex.reset();
    mc::Quiesce();
    MC_CHECK(n->load() == 0 && made->load() == 2, "contexts");
    AllRan(*t, 2);
  }, 3);
  // The initializer may leave the guard empty.
  mc::Register("context-none", [=] {
    auto t = std::make_shared<Token>();
    auto ex = std::make_shared<kp::DerivedExecutor>(kp::GetEagerExecutor(), [](kp::ContextGuard&) {});
    ex->Schedule(Task(t, 0, ex.get()));
    AllRan(*t, 1);
    auto sub = std::make_shared<kp::DerivedExecutor>(ex, nullptr);
    sub->Schedule(Task(t, 1, sub.get()));
    AllRan(*t, 2);
  });
};
