// What the scenarios share: values, executors, readers with their oracle.
#ifndef VERIF_PAR_COMMON_H_
#define VERIF_PAR_COMMON_H_
#include <algorithm>
#include <array>
#include <atomic>
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "absl/functional/any_invocable.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/synchronization/mutex.h"
#include "absl/synchronization/notification.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/simple_qtype.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/util/cancellation.h"
#include "boost/asio/thread_pool.hpp"
#include "koladata/functor/parallel/eager_executor.h"
#include "koladata/functor/parallel/executor.h"
#include "koladata/functor/parallel/stream.h"
#include "mc.h"

namespace kp = ::koladata::functor::parallel;
using arolla::GetQType;
using arolla::TypedRef;
using arolla::TypedValue;
using kp::ExecutorPtr;
using kp::StreamPtr;
using kp::StreamWriter;
using kp::StreamReader;
using kp::StreamReaderPtr;
using kp::StreamWriterPtr;

// A value with a heap part whose stream chunks hold one or two values.
struct Big {
  std::string s;
  struct Pad {
    char c[232];
    Pad() {}
    Pad(const Pad& o) { mc_copy(c, o.c, sizeof c); }
    Pad& operator=(const Pad& o) { mc_copy(c, o.c, sizeof c); return *this; }
  } pad;
};
namespace arolla {
AROLLA_DECLARE_FINGERPRINT_HASHER_TRAITS(Big);
AROLLA_DECLARE_REPR(Big);
AROLLA_DECLARE_SIMPLE_QTYPE(BIG, Big);
}

namespace scn {

inline std::string Str(const absl::Status& s) { return std::string(s.ToString()); }

// Values of three types: int64 (64 to a chunk), text (16), Big (2).
enum Ty { kInt, kText, kBig };
inline arolla::QTypePtr Q(Ty t) {
  return t == kInt ? GetQType<int64_t>() : t == kText ? GetQType<arolla::Text>() : GetQType<Big>();
}
inline std::string Payload(int64_t i) { return "a value long enough to be on the heap: " + std::to_string(i); }
inline TypedValue V(int64_t i, Ty t = kInt) {
  if (t == kInt) return TypedValue::FromValue(i);
  if (t == kText) return TypedValue::FromValue(arolla::Text(Payload(i)));
  Big b;
  b.s = Payload(i);
  mc_fill(b.pad.c, (char)i, sizeof b.pad.c);
  return TypedValue::FromValue(std::move(b));
}
inline int64_t I(TypedRef r) {
  if (r.GetType() == GetQType<int64_t>()) return r.UnsafeAs<int64_t>();
  std::string s;
  if (r.GetType() == GetQType<arolla::Text>()) {
    s = std::string(r.UnsafeAs<arolla::Text>().view());
  } else if (r.GetType() == GetQType<Big>()) {
    const Big& b = r.UnsafeAs<Big>();
    s = b.s;
    MC_CHECK(mc_uniform(b.pad.c, sizeof b.pad.c), "a torn value");
  } else {
    MC_CHECK(false, "a value of an unexpected type: " + std::string(r.GetType()->name()));
  }
  size_t k = s.rfind(' ');
  MC_CHECK(k != std::string::npos && s.compare(0, k + 1, "a value long enough to be on the heap: ") == 0, "a torn value");
  return atoll(s.c_str() + k + 1);
}
inline int64_t I(const TypedValue& v) { return I(v.AsRef()); }

template <typename T> std::string Show(const std::vector<T>& v) {
  std::string s = "[";
  for (auto& x : v) { if (s.size() > 1) s += ", "; s += std::to_string(x); }
  return s + "]";
}

// A log of events of all threads, in their real order. Adds no ordering.
class Log {
 public:
  void Add(int64_t v) {
    mc_point("log");
    { mc::Quiet q; v_.push_back(v); }
    mc_note(this);
  }
  std::vector<int64_t> Get() const { mc::Quiet q; return v_; }
  size_t size() const { mc::Quiet q; return v_.size(); }
 private:
  std::vector<int64_t> v_;
};

// A flag of the harness that orders nothing (relaxed, as far as the races go).
class Flag {
 public:
  void Set() { mc_point("flag"); { mc::Quiet q; b_ = true; } mc_note(this); }
  bool Get() const { mc_point("flag?"); bool r; { mc::Quiet q; r = b_; } mc_note(const_cast<Flag*>(this)); return r; }
 private:
  bool b_ = false;
};

// n workers, tasks taken in the order of scheduling.
class PoolExecutor final : public kp::Executor {
 public:
  explicit PoolExecutor(int n) : pool_(n) { pool_.verif_harness(); }
  PoolExecutor(int n, ContextGuardInitializer i) : Executor(std::move(i)), pool_(n) { pool_.verif_harness(); }
  std::string Repr() const noexcept final { return "pool"; }
 protected:
  void DoSchedule(TaskFn task) noexcept final { pool_.verif_post(std::move(task)); }
 private:
  boost::asio::thread_pool pool_;
};
// A thread for each task: any order, any overlap.
class FreeExecutor final : public kp::Executor {
 public:
  std::string Repr() const noexcept final { return "free"; }
 protected:
  void DoSchedule(TaskFn task) noexcept final {
    mc_point("schedule");
    auto p = std::make_shared<TaskFn>(std::move(task));
    mc::Spawn([p]() mutable {
      TaskFn fn = std::move(*p);
      p.reset();
      std::move(fn)();
    }, "task");
  }
};
// Drops every task.
class DeadExecutor final : public kp::Executor {
 public:
  std::string Repr() const noexcept final { return "dead"; }
 protected:
  void DoSchedule(TaskFn) noexcept final {}
};
// Runs the first n tasks at once and drops the others: it has been shut down.
class DyingExecutor final : public kp::Executor {
 public:
  explicit DyingExecutor(int n) : left_(n) {}
  std::string Repr() const noexcept final { return "dying"; }
 protected:
  void DoSchedule(TaskFn task) noexcept final {
    if (left_.fetch_sub(1) > 0) std::move(task)();
  }
 private:
  std::atomic<int> left_;
};
// 'e' eager; '1', '2', '3' workers; 'f' a thread per task.
inline ExecutorPtr Exec(char kind) {
  if (kind == 'e') return kp::GetEagerExecutor();
  if (kind == 'f') return std::make_shared<FreeExecutor>();
  return std::make_shared<PoolExecutor>(kind - '0');
}

// Reads a stream to its end: whenever nothing is available it subscribes and
// goes on in the callback.
class Collector : public std::enable_shared_from_this<Collector> {
 public:
  static std::shared_ptr<Collector> Start(const StreamPtr& s) {
    auto c = std::make_shared<Collector>();
    c->reader_ = s->MakeReader();
    c->Go();
    return c;
  }
  // What was read. Only for a thread ordered after the reading.
  const std::vector<int64_t>& items() const { return items_; }
  bool closed() const { return status_.has_value(); }
  const absl::Status& status() const { MC_CHECK(status_.has_value(), "the stream was not closed: a reader waits for ever"); return *status_; }
  void Expect(const std::vector<int64_t>& items, const absl::Status& status, const std::string& what) const {
    MC_CHECK(items_ == items, what + ": read " + Show(items_) + ", expected " + Show(items));
    MC_CHECK(status_.has_value(), what + ": the stream was never closed");
    MC_CHECK(*status_ == status, what + ": closed with " + Str(*status_) + ", expected " + Str(status));
  }
  void Drop() { reader_.reset(); }
  std::function<void(int64_t)> on_item;
  // The items must not be gone while the reader lives.
  void CheckRefs() const {
    for (size_t i = 0; i < refs_.size(); ++i) MC_CHECK(I(refs_[i]) == items_[i], "an item that was read has changed");
  }
  void Go() {
    for (;;) {
      auto r = reader_->TryRead();
      if (auto* item = r.item()) {
        MC_CHECK(!must_be_ready_ || true, "");
        must_be_ready_ = false;
        MC_CHECK(!status_, "an item after the end of the stream");
        refs_.push_back(*item);
        items_.push_back(I(*item));
        continue;
      }
      if (auto* st = r.close_status()) {
        must_be_ready_ = false;
        status_ = *st;
        auto again = reader_->TryRead();
        MC_CHECK(again.close_status() != nullptr && *again.close_status() == *st, "the close status of a stream does not stay");
        CheckRefs();
        return;
      }
      MC_CHECK(!must_be_ready_, "a callback was invoked but there is nothing to read");
      must_be_ready_ = true;
      auto self = shared_from_this();
      reader_->SubscribeOnce([self, n = ++subscribed_]() {
        MC_CHECK(n == self->subscribed_ && self->invoked_ < n, "a callback was invoked twice");
        self->invoked_ = n;
        self->Go();
      });
      return;
    }
  }
 private:
  StreamReaderPtr reader_;
  std::vector<int64_t> items_;
  std::vector<TypedRef> refs_;
  std::optional<absl::Status> status_;
  bool must_be_ready_ = false;
  int subscribed_ = 0, invoked_ = 0;
};

// Reads a stream that nobody writes any more.
struct Read { std::vector<int64_t> items; std::optional<absl::Status> status; };
inline Read ReadAll(const StreamPtr& s) {
  Read r;
  auto reader = s->MakeReader();
  for (;;) {
    auto t = reader->TryRead();
    if (auto* item = t.item()) { r.items.push_back(I(*item)); continue; }
    if (auto* st = t.close_status()) r.status = *st;
    return r;
  }
}
inline void ExpectAll(const StreamPtr& s, const std::vector<int64_t>& items, const absl::Status& status, const std::string& what) {
  Read r = ReadAll(s);
  MC_CHECK(r.items == items, what + ": the stream has " + Show(r.items) + ", expected " + Show(items));
  MC_CHECK(r.status.has_value(), what + ": the stream was never closed");
  MC_CHECK(*r.status == status, what + ": closed with " + Str(*r.status) + ", expected " + Str(status));
}
inline bool Prefix(const std::vector<int64_t>& a, const std::vector<int64_t>& b) {
  return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin());
}

struct Reg {
  template <typename F> Reg(F f) { f(); }
};
#define SCENARIOS static ::scn::Reg scn_reg_##__LINE__ = +[]()
inline std::string N(const char* f, int a = 0, int b = 0, int c = 0, int d = 0) {
  char buf[160];
  snprintf(buf, sizeof buf, f, a, b, c, d);
  return buf;
}
}  // namespace scn
#endif
