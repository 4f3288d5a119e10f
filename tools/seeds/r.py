"""Plants R01a..R07b (run from /verif: python tools/seeds/r.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkpar
D = 'koladata/functor/parallel/'

mkpar('R01a', 'R01', [(D + 'stream.cc', '''  {
    absl::MutexLock lock(stream_->mutex_);
    if (!stream_->status_.has_value()) {
      Update();
      if (offset_ == known_size_) {
        stream_->callbacks_.push_back(std::move(callback));
        return;
      }
    }
  }
  std::move(callback)();
''', '''  bool ready = offset_ < known_size_;
  if (!ready) {
    absl::MutexLock lock(stream_->mutex_);
    Update();
    ready = stream_->status_.has_value() || offset_ < known_size_;
  }
  if (!ready) {
    absl::MutexLock lock(stream_->mutex_);
    stream_->callbacks_.push_back(std::move(callback));
    return;
  }
  std::move(callback)();
''')], 'a write (or the close) by another thread between the check for available data and the registration of the callback',
      'a reader that subscribes misses the change that happened between its check and its registration: it is called back late, or never', r'''
#include "common.h"
using namespace scn;
SCENARIOS {
  mc::Register("one-item", [] {
    auto [s, w] = kp::MakeStream(GetQType<int64_t>(), 1);
    auto* p = w.release();
    mc::Spawn([p] { StreamWriterPtr w(p); w->Write(V(1).AsRef()); std::move(*w).Close(); }, "writer");
    auto c = Collector::Start(s);
    mc::Quiesce();
    c->Expect({1}, absl::OkStatus(), "the reader");
  }, 2);
};
''', [])

mkpar('R01b', 'R01', [(D + 'stream.cc', '''  if (offset_ < known_size_) [[likely]] {
    return chunk_->GetRef(offset_++);
  }
  absl::MutexLock lock(stream_->mutex_);
  Update();
  TryReadResult result;
  if (offset_ < known_size_) {
    result = chunk_->GetRef(offset_++);
    Update();
  } else if (stream_->status_.has_value()) {
    result = *stream_->status_;
  }
  return result;
''', '''  if (offset_ < known_size_) [[likely]] {
    return chunk_->GetRef(offset_++);
  }
  TryReadResult result;
  {
    absl::MutexLock lock(stream_->mutex_);
    Update();
    if (offset_ < known_size_) {
      result = chunk_->GetRef(offset_++);
      Update();
      return result;
    }
  }
  // There is nothing to read: see if there is going to be.
  absl::MutexLock lock(stream_->mutex_);
  if (stream_->status_.has_value()) {
    result = *stream_->status_;
  }
  return result;
''')], 'a reader that finds nothing, then another thread that writes the last items and closes the stream before the reader looks at the status',
      'the reader sees the end of the stream before the last items: they are lost for it', r'''
#include "common.h"
using namespace scn;
SCENARIOS {
  mc::Register("poll", [] {
    auto [s, w] = kp::MakeStream(GetQType<int64_t>(), 1);
    auto* p = w.release();
    mc::Spawn([p] { StreamWriterPtr w(p); w->Write(V(1).AsRef()); w->Write(V(2).AsRef()); std::move(*w).Close(); }, "writer");
    auto c = Collector::Start(s);
    mc::Quiesce();
    c->Expect({1, 2}, absl::OkStatus(), "the reader");
  }, 3);
};
''', [])

mkpar('R02a', 'R02', [(D + 'stream_composition.cc', '''      {
        absl::MutexLock lock(mutex_);
        pending_inputs_.pop();
        if (pending_inputs_.empty()) {
          return;
        } else {
          active_input = pending_inputs_.front().get();
        }
      }
''', '''      StreamReaderPtr done_input;
      {
        absl::MutexLock lock(mutex_);
        done_input = std::move(pending_inputs_.front());
        if (pending_inputs_.size() > 1) {
          pending_inputs_.pop();
          active_input = pending_inputs_.front().get();
          continue;
        }
      }
      // The reader may own a lot; it goes before the queue is unlocked again.
      done_input.reset();
      absl::MutexLock lock(mutex_);
      pending_inputs_.pop();
      return;
''')], 'an input added by another thread just while the last pending one is finished',
      'the added input is never processed: its items are lost and the chain aborts when it is destroyed', r'''
#include "common.h"
#include "koladata/functor/parallel/stream_composition.h"
using namespace scn;
SCENARIOS {
  mc::Register("two-inputs", [] {
    auto [out, w] = kp::MakeStream(GetQType<int64_t>(), 1);
    auto [a, wa] = kp::MakeStream(GetQType<int64_t>(), 1);
    auto* p = wa.release();
    auto c = Collector::Start(out);
    {
      kp::StreamChain chain(std::move(w));
      chain.Add(a);
      mc::Spawn([p] { StreamWriterPtr w(p); w->Write(V(1).AsRef()); std::move(*w).Close(); }, "input");
      chain.AddItem(V(2).AsRef());
    }
    mc::Quiesce();
    c->Expect({1, 2}, absl::OkStatus(), "the chain");
  }, 2);
};
''', ['stream_composition'])

mkpar('R02b', 'R02', [(D + 'stream_composition.cc', '''  ~Scheduler() { writer_->TryClose(absl::OkStatus()); }

  bool Orphaned() const { return writer_->Orphaned(); }
''', '''  ~Scheduler() { writer_->TryClose(std::move(status_)); }

  bool Orphaned() const { return !status_.ok() || writer_->Orphaned(); }
'''), (D + 'stream_composition.cc', '''      if (!status->ok()) {
        self->writer_->TryClose(std::move(*status));
      }
      return;
    }
    // Note: Consider''', '''      if (!status->ok()) {
        if (self->status_.ok()) {
          self->status_ = *status;
        }
        self->writer_->TryClose(std::move(*status));
      }
      return;
    }
    // Note: Consider'''), (D + 'stream_composition.cc', ''' private:
  const StreamWriterPtr absl_nonnull writer_;
};
''', ''' private:
  const StreamWriterPtr absl_nonnull writer_;
  absl::Status status_;
};
''')], 'two inputs that fail at the same time in different threads, or Orphaned() called while one fails',
      'the remembered status is written by two threads without synchronisation: a data race on a reference-counted status', r'''
#include "common.h"
#include "koladata/functor/parallel/stream_composition.h"
using namespace scn;
SCENARIOS {
  mc::Register("two-fail", [] {
    auto [out, w] = kp::MakeStream(GetQType<int64_t>(), 1);
    auto c = Collector::Start(out);
    {
      kp::StreamInterleave il(std::move(w));
      for (int k = 0; k < 2; ++k) {
        auto [a, wa] = kp::MakeStream(GetQType<int64_t>(), 1);
        auto* p = wa.release();
        il.Add(a);
        mc::Spawn([p] { StreamWriterPtr w(p); std::move(*w).Close(absl::InternalError("failed")); }, "input");
      }
    }
    mc::Quiesce();
    c->Expect({}, absl::InternalError("failed"), "the interleave");
  }, 2);
};
''', ['stream_composition'])

mkpar('R03a', 'R03', [(D + 'stream_map.cc', '''    absl::MutexLock lock(mutex_);
    DCHECK_LE(write_count_, offset);
    if (!Accepts(offset)) {
      return false;
    }
    const size_t i = offset - write_count_;
    if (buffer_.size() <= i) {
      buffer_.resize(i + 1);
    }
    buffer_[i] = std::move(item);
    while (!buffer_.empty() && buffer_.front().has_value()) {
      if (!writer_->TryWrite(buffer_.front()->AsRef())) {
        final_offset_ = 0;  // Orphaned or already closed.
        return false;
      }
      write_count_ += 1;
      buffer_.pop_front();
    }
''', '''    // The items that are ready; written without holding the lock, as others
    // may want to push meanwhile.
    std::deque<arolla::TypedValue> ready;
    {
      absl::MutexLock lock(mutex_);
      DCHECK_LE(write_count_, offset);
      if (!Accepts(offset)) {
        return false;
      }
      const size_t i = offset - write_count_;
      if (buffer_.size() <= i) {
        buffer_.resize(i + 1);
      }
      buffer_[i] = std::move(item);
      while (!buffer_.empty() && buffer_.front().has_value()) {
        ready.push_back(*std::move(buffer_.front()));
        write_count_ += 1;
        buffer_.pop_front();
      }
    }
    for (const auto& value : ready) {
      if (!writer_->TryWrite(value.AsRef())) {
        absl::MutexLock lock(mutex_);
        final_offset_ = 0;  // Orphaned or already closed.
        return false;
      }
    }
    absl::MutexLock lock(mutex_);
''')], 'a thread that is preempted between taking finished items out of the buffer and writing them, while another finishes the next item (or the input ends)',
      'the results of the ordered map come in another order, or the output is closed before all of them are written', r'''
#include "common.h"
#include "koladata/functor/parallel/stream_map.h"
using namespace scn;
SCENARIOS {
  mc::Register("two-items", [] {
    auto [in, w] = kp::MakeStream(GetQType<int64_t>(), 2);
    w->Write(V(1).AsRef()); w->Write(V(2).AsRef()); std::move(*w).Close();
    auto out = kp::StreamMap(Exec('2'), in, GetQType<int64_t>(), [](TypedRef r) -> absl::StatusOr<TypedValue> { return V(10 * I(r)); });
    auto c = Collector::Start(out);
    mc::Quiesce();
    c->Expect({10, 20}, absl::OkStatus(), "the map");
  }, 2);
};
''', ['stream_map'])

mkpar('R03b', 'R03', [(D + 'stream_map.cc', '''    if (!failed_.test_and_set(std::memory_order_relaxed) &&
        write_count_ == input_stream_size_) {
''', '''    if (!failed_.test_and_set(std::memory_order_relaxed) &&
        input_stream_size_.has_value()) {
''')], 'an executor that drops a task (it shuts down) after the whole input has been read',
      'the unordered map closes its output with OK although results are missing', r'''
#include "common.h"
#include "koladata/functor/parallel/stream_map.h"
using namespace scn;
SCENARIOS {
  for (int n = 0; n < 4; ++n) mc::Register(N("dying[%d]", n), [n] {
    auto [in, w] = kp::MakeStream(GetQType<int64_t>(), 2);
    w->Write(V(1).AsRef()); w->Write(V(2).AsRef()); std::move(*w).Close();
    StreamPtr out = kp::StreamMapUnordered(std::make_shared<DyingExecutor>(n), in, GetQType<int64_t>(), [](TypedRef r) -> absl::StatusOr<TypedValue> { return V(10 * I(r)); });
    Read r = ReadAll(out);
    MC_CHECK(r.status.has_value(), "never closed");
    MC_CHECK(r.status->ok() == (r.items.size() == 2), "closed with OK and items missing, or the reverse");
  }, 0);
};
''', ['stream_map'])

mkpar('R04a', 'R04', [(D + 'basic_routine.cc', '''  state->reader->SubscribeOnce([state = std::move(state)]() mutable {
    if (Interrupted(*state)) {
      return;
    }
    state->executor->Schedule(
        [state = std::move(state)]() mutable { Run(std::move(state)); });
  });
''', '''  // The callback keeps the state alive: nothing of it is needed here.
  auto& reader = *state->reader;
  reader.SubscribeOnce([state]() mutable {
    if (Interrupted(*state)) {
      return;
    }
    state->executor->Schedule(
        [state = std::move(state)]() mutable { Run(std::move(state)); });
  });
  if (Interrupted(*state)) {
    // Cancelled just now: the awaited reader may never become ready.
    state->reader = nullptr;
  }
''')], 'a cancellation (or a lost reader) that comes just after the subscription, while another thread already resumes the routine',
      'the reader is destroyed under the hands of the thread that resumes with it: a data race and a use of freed memory', r'''
#include "common.h"
#include "koladata/functor/parallel/stream_reduce.h"
using namespace scn;
SCENARIOS {
  mc::Register("reduce-cancel", [] {
    auto cc = arolla::CancellationContext::Make();
    auto [in, w] = kp::MakeStream(GetQType<int64_t>(), 1);
    auto* p = w.release();
    StreamPtr out;
    {
      arolla::CancellationContext::ScopeGuard g(cc);
      out = kp::StreamReduce(Exec('2'), V(0), in, [](TypedRef a, TypedRef b) -> absl::StatusOr<TypedValue> { return V(I(a) + I(b)); });
    }
    mc::Spawn([p] { StreamWriterPtr w(p); w->Write(V(1).AsRef()); std::move(*w).Close(); }, "input");
    mc::Spawn([cc] { cc->Cancel(absl::CancelledError("stop")); }, "cancel");
    auto c = Collector::Start(out);
    mc::Quiesce();
    (void)c->status();
  }, 2);
};
''', ['basic_routine', 'stream_reduce'])

mkpar('R04b', 'R04', [(D + 'stream_call.cc', '''      awaited_arg_index_ = args_.size();
      StreamReaderPtr arg_reader;''', '''      StreamReaderPtr arg_reader;'''),
                      (D + 'stream_call.cc', '''    auto try_read_result = reader->TryRead();
    if (awaited_arg_index_ == args_.size()) {
      if (auto* item = try_read_result.item()) {
        args_.push_back(*item);
''', '''    auto try_read_result = reader->TryRead();
    if (!awaited_arg_index_.has_value()) {
      if (auto* item = try_read_result.item()) {
        awaited_arg_index_ = args_.size();
        args_.push_back(*item);
'''), (D + 'stream_call.cc', '''    } else if (auto* status = try_read_result.close_status()) {
      if (status->ok()) {
        return nullptr;
      }
      return std::move(*status);
    } else {
      return reader;
    }
  }
''', '''    } else if (auto* status = try_read_result.close_status()) {
      awaited_arg_index_.reset();
      if (status->ok()) {
        return nullptr;
      }
      return std::move(*status);
    } else {
      awaited_arg_index_.reset();
      return reader;
    }
  }
'''), (D + 'stream_call.cc', '''  size_t awaited_arg_index_;
''', '''  std::optional<size_t> awaited_arg_index_;
'''), (D + 'stream_call.cc', '''#include <memory>
''', '''#include <memory>
#include <optional>
''')], 'an awaited argument whose stream is closed (or gets a second item) only after its first item has been read',
      'the call fails with "empty stream" for a single-item stream that is closed late (or takes a second item as the next argument)', r'''
#include "common.h"
#include "koladata/functor/parallel/stream_call.h"
#include "koladata/functor/parallel/stream_qtype.h"
#include "arolla/qtype/typed_ref.h"
using namespace scn;
SCENARIOS {
  mc::Register("late-close", [] {
    auto [in, w] = kp::MakeStream(GetQType<int64_t>(), 1);
    TypedValue arg = kp::MakeStreamQValue(in);
    std::vector<TypedRef> args = {kp::MakeStreamCallAwaitArg(arg.AsRef())};
    auto out = kp::StreamCall(Exec('e'), [](absl::Span<const TypedRef> a) -> absl::StatusOr<TypedValue> { return V(I(a[0]) + 1); }, GetQType<int64_t>(), args);
    MC_CHECK(out.ok(), "StreamCall");
    auto c = Collector::Start(*out);
    w->Write(V(1).AsRef());
    std::move(*w).Close();
    c->Expect({2}, absl::OkStatus(), "the call");
  }, 0);
};
''', ['basic_routine', 'stream_call', 'stream_composition', 'future', 'stream_qtype', 'future_qtype'])

mkpar('R05b', 'R05', [(D + 'stream_for.cc', '''    if (reader_ == nullptr) {
      reader_ = std::move(reader);
    } else {
      ASSIGN_OR_RETURN(parsed_condition,
                       ParseLoopConditionStream(std::move(reader)),
                       OnError(std::move(_)));
    }
    return Run(std::move(parsed_condition));
''', '''    if (reader_ == nullptr) {
      reader_ = std::move(reader);
    } else {
      ASSIGN_OR_RETURN(parsed_condition,
                       ParseLoopConditionStream(std::move(reader)),
                       OnError(std::move(_)));
      if (parsed_condition.reader == nullptr) {
        // The condition is known now.
        parsed_condition.value = true;
      }
    }
    return Run(std::move(parsed_condition));
''')], 'a condition functor that returns a stream whose (missing) value comes only after the loop began to wait for it',
      'the loop goes on although the condition is missing', r'''
#include "common.h"
#include "koladata/data_slice.h"
#include "koladata/functor/parallel/stream_for.h"
#include "koladata/functor/parallel/stream_qtype.h"
#include "koladata/internal/dtype.h"
#include "arolla/qtype/named_field_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
using namespace scn;
using koladata::DataSlice;
SCENARIOS {
  mc::Register("late-condition", [] {
    auto [in, w] = kp::MakeStream(GetQType<int64_t>(), 2);
    w->Write(V(1).AsRef()); w->Write(V(2).AsRef()); std::move(*w).Close();
    auto [cs, cw0] = kp::MakeStream(arolla::GetQType<DataSlice>(), 1);
    StreamPtr conds = cs;
    auto body = [](absl::Span<const TypedRef> a, absl::Span<const std::string>) -> absl::StatusOr<TypedValue> {
      return arolla::MakeNamedTuple({"returns"}, {V(10 * I(a[0]))});
    };
    auto cond = [conds](absl::Span<const TypedRef>, absl::Span<const std::string>) -> absl::StatusOr<TypedValue> {
      return kp::MakeStreamQValue(conds);
    };
    TypedValue ret = V(0);
    auto state = arolla::MakeNamedTuple(std::vector<std::string>{}, std::vector<TypedRef>{});
    MC_CHECK(state.ok(), "state");
    auto out = kp::StreamForReturns(Exec('e'), in, body, nullptr, cond, ret.AsRef(), state->AsRef());
    MC_CHECK(out.ok(), "starts");
    auto c = Collector::Start(*out);
    DataSlice no(koladata::internal::DataItem(), koladata::schema::kMask);
    TypedValue v = TypedValue::FromValue(no);
    cw0->Write(v.AsRef());
    std::move(*cw0).Close();
    c->Expect({0}, absl::OkStatus(), "a loop whose condition is missing");
  }, 0);
};
''', ['basic_routine', 'stream_for', 'stream_loop_internal', 'stream_qtype', 'stream_composition'])

mkpar('R05a', 'R05', [(D + 'stream_loop_internal.cc', '''    it->second.mutable_ref = value;
    // Note: value is a reference to a field within the `update` value.
    // The `update` is immutable and ref-counted. Here, we make sure that
    // the lifetime of the `update` exceeds the lifetime of the `value`.
    it->second.holder = update;
''', '''    it->second.mutable_ref = value;
    // Note: value is a reference to a field within the `update` value.
    // The `update` is immutable and ref-counted. Here, we make sure that
    // the lifetime of the `update` exceeds the lifetime of the `value`.
    if (i == 0) {
      it->second.holder = update;
    }
''')], 'a body that returns two or more variables, the first of which is replaced by a later iteration that leaves another one alone',
      'a loop variable refers to freed memory', r'''
#include "common.h"
#include "arolla/qtype/named_field_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "koladata/functor/parallel/stream_loop_internal.h"
using namespace scn;
SCENARIOS {
  mc::Register("two-vars", [] {
    TypedValue a = V(1, kText), b = V(2, kText);
    std::vector<TypedRef> init = {a.AsRef(), b.AsRef()};
    kp::stream_loop_internal::Vars vars(init, {"x", "y"});
    auto both = arolla::MakeNamedTuple({"x", "y"}, {V(3, kText), V(4, kText)});
    MC_CHECK(both.ok() && vars.Update(*std::move(both)).ok(), "update");
    auto one = arolla::MakeNamedTuple({"x"}, {V(5, kText)});
    MC_CHECK(one.ok() && vars.Update(*std::move(one)).ok(), "update");
    MC_CHECK(I(vars.values()[0]) == 5 && I(vars.values()[1]) == 4, "the variables");
  }, 0);
};
''', ['stream_loop_internal', 'stream_qtype'])

mkpar('R06a', 'R06', [(D + 'executor.cc', '''  CHECK_EQ(data.current_executor, executor_.get())
      << "CurrentExecutorScopeGuard: Scope nesting invariant "
         "violated!";
  data.current_executor = previous_executor_;
''', '''  CHECK_EQ(data.current_executor, executor_.get())
      << "CurrentExecutorScopeGuard: Scope nesting invariant "
         "violated!";
  if (previous_executor_ != nullptr || !data.is_executor_task) {
    data.current_executor = previous_executor_;
  }
''')], 'a scope without a current executor (nullptr) inside a task, with another scope nested in it',
      'leaving the inner scope does not restore "no current executor": the wrong executor stays current', r'''
#include "common.h"
using namespace scn;
SCENARIOS {
  mc::Register("null-scope", [] {
    auto e = kp::GetEagerExecutor();
    e->Schedule([e] {
      kp::CurrentExecutorScopeGuard none(nullptr);
      { kp::CurrentExecutorScopeGuard inner(e); }
      MC_CHECK(kp::CurrentExecutorScopeGuard::current_executor() == nullptr, "not restored");
    });
  }, 0);
};
''', [])

mkpar('R06b', 'R06', [(D + 'asio_executor.cc', '''    GetDefaultExecutor()->Schedule([thread_pool = std::move(thread_pool_)] {
''', '''    if (!IsExecutorTask()) {
      // Nothing can be waiting for this thread.
      thread_pool_->stop();
      thread_pool_->join();
      return;
    }
    GetDefaultExecutor()->Schedule([thread_pool = std::move(thread_pool_)] {
''')], 'the last reference to the executor is the one of a task that ends on one of its threads (everybody else let go before)',
      'the destructor runs on a thread of the pool, after the task, and waits for that thread: it never ends', r'''
#include "common.h"
#include "koladata/functor/parallel/get_default_executor.h"
#include "koladata/functor/parallel/make_executor.h"
using namespace scn;
SCENARIOS {
  mc::Register("let-go", [] {
    auto n = std::make_shared<std::atomic<int>>(0);
    {
      auto ex = kp::MakeExecutor(1);
      ex->Schedule([n] { n->fetch_add(1); });
    }
    mc::Quiesce();
    MC_CHECK(n->load() == 1, "the task did not run");
    (void)kp::GetDefaultExecutor();
    MC_CHECK(boost::asio::verif_pools == 1, "the threads of an executor outlive it");
  }, 2);
};
''', ['asio_executor', 'default_asio_executor', 'get_default_executor', 'make_executor'])

mkpar('R07a', 'R07', [(D + 'future.cc', '''  std::optional<absl::StatusOr<arolla::TypedValue>> value;
  {
    absl::MutexLock l(lock_);
    if (!value_) {
      consumers_.push_back(std::move(consumer));
      return;
    }
    value = value_;
  }
  // Important to not call this while holding the lock.
  std::move(consumer)(std::move(*value));
''', '''  std::optional<absl::StatusOr<arolla::TypedValue>> value;
  {
    absl::MutexLock l(lock_);
    value = value_;
  }
  if (!value) {
    // Make the room outside of the calls below.
    absl::MutexLock l(lock_);
    consumers_.push_back(std::move(consumer));
    return;
  }
  // Important to not call this while holding the lock.
  std::move(consumer)(std::move(*value));
''')], 'the value is set by another thread between the two critical sections of AddConsumer',
      'the consumer is never called', r'''
#include "common.h"
#include "koladata/functor/parallel/future.h"
using namespace scn;
SCENARIOS {
  mc::Register("consumer", [] {
    auto [f0, w0] = kp::MakeFuture(GetQType<int64_t>());
    auto f = f0;
    auto w = std::make_shared<kp::FutureWriter>(std::move(w0));
    auto n = std::make_shared<std::atomic<int>>(0);
    mc::Spawn([w] { std::move(*w).SetValue(V(1)); }, "writer");
    f->AddConsumer([n](absl::StatusOr<TypedValue> v) { MC_CHECK(v.ok() && I(*v) == 1, "value"); n->fetch_add(1); });
    mc::Quiesce();
    MC_CHECK(n->load() == 1, "a consumer is not called once");
  }, 2);
};
''', ['future'])

mkpar('R07b', 'R07', [(D + 'future.cc', '''  std::vector<ConsumerFn> consumers;
  {
    absl::MutexLock l(lock_);
    if (value_) {
      LOG(FATAL) << "future already has a value";
    }
    value_ = value;
    consumers.swap(consumers_);
  }
  for (auto& consumer : consumers) {
    // Important to not call this while holding the lock.
    std::move(consumer)(value);
  }
''', '''  std::vector<ConsumerFn> consumers;
  {
    absl::MutexLock l(lock_);
    if (value_) {
      LOG(FATAL) << "future already has a value";
    }
    consumers.swap(consumers_);
  }
  for (auto& consumer : consumers) {
    // Important to not call this while holding the lock.
    std::move(consumer)(value);
  }
  absl::MutexLock l(lock_);
  value_ = std::move(value);
''')], 'a consumer that looks at the future, adds another consumer, or reads a stream made from it; or one that is added by another thread during the notification',
      'consumers are called before the future has its value; a consumer added meanwhile is never called', r'''
#include "common.h"
#include "koladata/functor/parallel/future.h"
using namespace scn;
SCENARIOS {
  mc::Register("reader", [] {
    auto [f, w] = kp::MakeFuture(GetQType<int64_t>());
    auto c = Collector::Start(kp::StreamFromFuture(f));
    std::move(w).SetValue(V(1));
    c->Expect({1}, absl::OkStatus(), "the reader");
  }, 0);
};
''', ['future'])
