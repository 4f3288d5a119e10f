// R04: routines on an executor, folding a stream, calling a functor when its
// arguments are there.
#include "common.h"
#include "koladata/functor/parallel/basic_routine.h"
#include "koladata/functor/parallel/future.h"
#include "koladata/functor/parallel/future_qtype.h"
#include "koladata/functor/parallel/stream_call.h"
#include "koladata/functor/parallel/stream_qtype.h"
#include "koladata/functor/parallel/stream_reduce.h"
using namespace scn;

namespace {
absl::Status Err(int k) { return absl::InternalError("error " + std::to_string(k)); }
absl::Status Orphan() { return absl::CancelledError("orphaned"); }
absl::Status InputEnd(int end) { return end == 0 ? absl::OkStatus() : end == 1 ? Err(99) : Orphan(); }
void OnExecutor(const std::weak_ptr<kp::Executor>& ex, arolla::CancellationContext* ctx, const char* what) {
  MC_CHECK(kp::IsExecutorTask(), std::string(what) + " runs outside of an executor");
  auto cur = kp::CurrentExecutor();
  MC_CHECK(cur.ok() && (*cur).get() == ex.lock().get(), std::string(what) + " runs on another executor");
  MC_CHECK(arolla::CancellationContext::ScopeGuard::current_cancellation_context() == ctx, std::string(what) + " runs in another cancellation context");
}
// ------------------------------------------------------------ basic routine
struct Journal {
  int starts = 0, resumes = 0, in = 0;     // not atomic: the calls are serial
  std::atomic<int> cancels = 0, destroyed = 0;
  std::atomic<bool> stop = false;
  std::vector<int64_t> read;
  bool finished = false;
};
class Hooks final : public kp::BasicRoutineHooks {
 public:
  Hooks(std::shared_ptr<Journal> j, std::weak_ptr<kp::Executor> ex, arolla::CancellationContext* ctx, std::vector<StreamPtr> s, absl::Status cancel = absl::OkStatus())
      : j_(std::move(j)), ex_(std::move(ex)), ctx_(ctx), streams_(std::move(s)), cancel_(std::move(cancel)) {}
  ~Hooks() { MC_CHECK(j_->destroyed.fetch_add(1) == 0, "destroyed twice"); }
  bool Interrupted() const final { return j_->stop.load(); }
  void OnCancel(absl::Status&& st) final {
    MC_CHECK(j_->destroyed.load() == 0, "OnCancel after the end");
    MC_CHECK(!st.ok() && st == cancel_, "OnCancel got " + Str(st));
    MC_CHECK(j_->cancels.fetch_add(1) == 0, "OnCancel called twice");
  }
  StreamReaderPtr Start() final {
    MC_CHECK(++j_->in == 1, "Start overlaps another call");
    MC_CHECK(++j_->starts == 1 && !j_->resumes, "Start called again");
    OnExecutor(ex_, ctx_, "Start");
    auto r = Next(nullptr);
    --j_->in;
    return r;
  }
  StreamReaderPtr Resume(StreamReaderPtr reader) final {
    MC_CHECK(++j_->in == 1, "Resume overlaps another call");
    ++j_->resumes;
    MC_CHECK(j_->starts == 1, "Resume before Start");
    OnExecutor(ex_, ctx_, "Resume");
    MC_CHECK(reader && reader.get() == waiting_, "Resume with another reader");
    auto r = Next(std::move(reader));
    --j_->in;
    return r;
  }
 private:
  // Reads the streams one after the other, item by item.
  StreamReaderPtr Next(StreamReaderPtr r) {
    bool must = r != nullptr;
    for (;;) {
      if (!r) {
        if (at_ == streams_.size()) { j_->finished = true; return nullptr; }
        r = streams_[at_++]->MakeReader();
      }
      auto t = r->TryRead();
      if (must) MC_CHECK(!t.empty(), "resumed though the reader is not ready");
      must = false;
      if (t.item()) { j_->read.push_back(I(*t.item())); continue; }
      if (t.close_status()) { r.reset(); continue; }
      waiting_ = r.get();
      return r;
    }
  }
  std::shared_ptr<Journal> j_;
  std::weak_ptr<kp::Executor> ex_;
  arolla::CancellationContext* ctx_;
  std::vector<StreamPtr> streams_;
  absl::Status cancel_;
  size_t at_ = 0;
  StreamReader* waiting_ = nullptr;
};
std::pair<std::vector<StreamPtr>, std::vector<StreamWriterPtr>> Streams(int n) {
  std::vector<StreamPtr> s; std::vector<StreamWriterPtr> w;
  for (int i = 0; i < n; ++i) { auto [a, b] = kp::MakeStream(Q(kInt), 1); s.push_back(std::move(a)); w.push_back(std::move(b)); }
  return {std::move(s), std::move(w)};
}
// ------------------------------------------------------------------- reduce
struct RCase { int n; int end; int bad; int how; };   // the call for item `bad` fails: 1 error, 2 wrong type
int64_t Fold(int64_t a, int64_t x) { return a * 10 + x; }
std::pair<std::vector<int64_t>, absl::Status> RRef(const RCase& c) {
  int64_t v = 1;
  for (int i = 0; i < c.n; ++i) {
    if (i == c.bad) return {{}, c.how == 1 ? Err(i) : absl::InvalidArgumentError("functor returned a value of the wrong type: expected " + std::string(Q(kText)->name()) + ", got INT64")};
    v = Fold(v, 2 + i);
  }
  if (c.end) return {{}, InputEnd(c.end)};
  return {{v}, absl::OkStatus()};
}
struct RF {
  RCase c;
  std::shared_ptr<std::vector<int>> calls;   // not atomic: the calls are serial
  std::weak_ptr<kp::Executor> ex;
  arolla::CancellationContext* ctx;
  absl::StatusOr<TypedValue> operator()(TypedRef a, TypedRef x) const {
    OnExecutor(ex, ctx, "a functor");
    int i = calls->size();
    calls->push_back(0);
    int64_t want = 1;
    for (int k = 0; k < i; ++k) want = Fold(want, 2 + k);
    MC_CHECK(I(a) == want && I(x) == 2 + i, "call " + std::to_string(i) + " of the functor got " + std::to_string(I(a)) + ", " + std::to_string(I(x)));
    if (i == c.bad) { if (c.how == 1) return Err(i); return V(0, kInt); }
    return V(Fold(I(a), I(x)), kText);
  }
};
StreamPtr Reduce(ExecutorPtr ex, StreamPtr s, const RCase& c, std::shared_ptr<std::vector<int>> calls) {
  RF f{c, std::move(calls), ex, arolla::CancellationContext::ScopeGuard::current_cancellation_context()};
  return kp::StreamReduce(std::move(ex), V(1, kText), std::move(s), std::move(f));
}
std::pair<StreamPtr, std::function<void()>> Input(int n, int end) {
  auto [s, w] = kp::MakeStream(Q(kInt), 1);
  auto* p = w.release();
  return {std::move(s), [=] {
    StreamWriterPtr w(p);
    for (int i = 0; i < n; ++i) w->Write(V(2 + i).AsRef());
    if (end < 2) std::move(*w).Close(InputEnd(end));
  }};
}
std::vector<RCase> RCases() {
  std::vector<RCase> v;
  for (int end = 0; end < 3; ++end) for (int n = 0; n < 3; ++n) for (int bad = -1; bad < n; ++bad) for (int how = 1; how < (bad < 0 ? 2 : 3); ++how) v.push_back({n, end, bad, how});
  return v;
}
// -------------------------------------------------------------------- call
// What an argument is.
enum Arg { aPlain, aLabelPlain, aOne, aEmpty, aTwo, aErr, aOneErr, aOrphan, aFuture, aFutureErr, aFutureOrphan, aStream, aOpen, aOneOpen };
struct Made { TypedValue v; std::function<void()> feed; };
Made MakeArg(Arg a, int k) {
  int64_t x = 5 + k;
  if (a == aPlain) return {V(x, kText), [] {}};
  if (a == aLabelPlain) { TypedValue v = V(x, kText); return {TypedValue(kp::MakeStreamCallAwaitArg(v.AsRef())), [] {}}; }
  if (a == aFuture || a == aFutureErr || a == aFutureOrphan) {
    auto [f, w] = kp::MakeFuture(Q(kText));
    auto p = std::make_shared<std::optional<kp::FutureWriter>>(std::move(w));
    TypedValue v = kp::MakeFutureQValue(f);
    return {TypedValue(kp::MakeStreamCallAwaitArg(v.AsRef())), [p, a, x, k] {
      if (a == aFuture) std::move(**p).SetValue(V(x, kText));
      if (a == aFutureErr) std::move(**p).SetValue(Err(k));
      p->reset();
    }};
  }
  auto [s, w] = kp::MakeStream(Q(kText), 1);
  auto p = std::make_shared<StreamWriterPtr>(std::move(w));
  TypedValue v = kp::MakeStreamQValue(s);
  auto feed = [p, a, x, k] {
    StreamWriterPtr& w = *p;
    if (a == aOne || a == aTwo || a == aOneErr || a == aStream || a == aOneOpen) w->Write(V(x, kText).AsRef());
    if (a == aTwo) w->Write(V(x, kText).AsRef());
    if (a == aOpen || a == aOneOpen) return;
    if (a != aOrphan) std::move(*w).Close(a == aErr || a == aOneErr ? Err(k) : absl::OkStatus());
    w.reset();
  };
  if (a == aStream) return {std::move(v), feed};
  return {TypedValue(kp::MakeStreamCallAwaitArg(v.AsRef())), feed};
}
bool Good(Arg a) { return a == aPlain || a == aLabelPlain || a == aOne || a == aFuture || a == aStream; }
absl::Status ArgStatus(Arg a, int k) {
  switch (a) {
    case aEmpty: return absl::InvalidArgumentError("expected a stream with a single item, got an empty stream");
    case aTwo: return absl::InvalidArgumentError("expected a stream with a single item, got a stream with multiple items");
    case aErr: case aOneErr: case aFutureErr: return Err(k);
    case aOrphan: case aFutureOrphan: return Orphan();
    default: return absl::OkStatus();
  }
}
// What the functor does: 0 a value, 1 a ready stream, 2 a stream written later,
// 3 an error, 4 a wrong type, 5 a stream with an error.
struct CCase { std::vector<Arg> args; int res; };
std::vector<CCase> CCases() {
  std::vector<CCase> v;
  for (int a = aPlain; a <= aStream; ++a) v.push_back({{(Arg)a}, 0});
  for (int r = 0; r < 6; ++r) { v.push_back({{}, r}); v.push_back({{aOne}, r}); }
  for (Arg a : {aOne, aErr, aFuture, aPlain}) for (Arg b : {aOne, aErr, aTwo, aFuture}) v.push_back({{a, b}, 0});
  v.push_back({{aOne, aPlain, aFuture}, 0});
  return v;
}
struct CallState { std::atomic<int> calls = 0; };
StreamPtr Call(ExecutorPtr ex, const CCase& c, const std::vector<Made>& m, std::shared_ptr<CallState> st) {
  std::vector<TypedRef> refs;
  for (auto& x : m) refs.push_back(x.v.AsRef());
  auto* ctx = arolla::CancellationContext::ScopeGuard::current_cancellation_context();
  auto f = [st, c, wex = std::weak_ptr<kp::Executor>(ex), ctx](absl::Span<const TypedRef> a) -> absl::StatusOr<TypedValue> {
    OnExecutor(wex, ctx, "a functor");
    MC_CHECK(st->calls.fetch_add(1) == 0, "the functor was called twice");
    MC_CHECK(a.size() == c.args.size(), "the functor got another number of arguments");
    int64_t sum = 100;
    for (size_t k = 0; k < a.size(); ++k) {
      MC_CHECK(Good(c.args[k]), "the functor was called though an argument is missing");
      if (c.args[k] == aStream) {
        MC_CHECK(kp::IsStreamQType(a[k].GetType()), "a stream that is not awaited must be passed as it is");
      } else {
        MC_CHECK(a[k].GetType() == Q(kText) && I(a[k]) == (int64_t)(5 + k), "argument " + std::to_string(k) + " is wrong");
      }
      sum += 1;
    }
    if (c.res == 3) return Err(33);
    if (c.res == 4) return V(3, kInt);
    if (c.res == 0) return V(sum, kText);
    auto [s, w] = kp::MakeStream(Q(kText), 1);
    auto v = kp::MakeStreamQValue(s);
    auto write = [w = std::make_shared<StreamWriterPtr>(std::move(w)), sum, res = c.res] {
      (*w)->Write(V(sum, kText).AsRef());
      (*w)->Write(V(sum + 1, kText).AsRef());
      std::move(**w).Close(res == 5 ? Err(44) : absl::OkStatus());
    };
    if (c.res == 2) mc::Spawn(write, "result"); else write();
    return v;
  };
  auto r = kp::StreamCall(std::move(ex), std::move(f), Q(kText), refs);
  MC_CHECK(r.ok(), "StreamCall");
  return *std::move(r);
}
std::pair<std::vector<int64_t>, absl::Status> CRef(const CCase& c) {
  int64_t n = 100 + c.args.size();
  switch (c.res) {
    case 0: return {{n}, absl::OkStatus()};
    case 3: return {{}, Err(33)};
    case 4: return {{}, absl::InvalidArgumentError("expected the functor to return " + std::string(Q(kText)->name()) + " or STREAM[" + std::string(Q(kText)->name()) + "], got INT64")};
    case 5: return {{n, n + 1}, Err(44)};
    default: return {{n, n + 1}, absl::OkStatus()};
  }
}
void CheckCall(const std::vector<int64_t>& items, const absl::Status& st, int calls, const CCase& c) {
  bool all = true, match = false;
  for (size_t k = 0; k < c.args.size(); ++k) if (!Good(c.args[k])) { all = false; match = match || st == ArgStatus(c.args[k], k); }
  if (!all) {
    MC_CHECK(items.empty() && match && calls == 0, "an argument failed; the call gave " + Show(items) + " " + Str(st));
    return;
  }
  auto [want, wst] = CRef(c);
  MC_CHECK(items == want && st == wst && calls == 1, "the call gave " + Show(items) + " " + Str(st) + ", expected " + Show(want) + " " + Str(wst));
}
}  // namespace

SCENARIOS {
  // The routine reads two streams that others write.
  for (char e : {'e', '1', '2', 'f'}) for (int n0 = 0; n0 < 3; ++n0) for (int n1 = 0; n1 < 2; ++n1) {
    mc::Register("routine" + N("[executor=%c,items=%d,%d]", e, n0, n1), [=] {
      auto j = std::make_shared<Journal>();
      auto [s, w] = Streams(2);
      int n[2] = {n0, n1};
      for (int k = 0; k < 2; ++k) mc::Spawn([w = std::make_shared<StreamWriterPtr>(std::move(w[k])), k, m = n[k]] {
        for (int i = 0; i < m; ++i) (*w)->Write(V(10 * k + i).AsRef());
        std::move(**w).Close();
      }, "input");
      { auto ex = Exec(e); kp::StartBasicRoutine(ex, std::make_unique<Hooks>(j, ex, nullptr, std::move(s))); }
      mc::Quiesce();
      std::vector<int64_t> want;
      for (int k = 0; k < 2; ++k) for (int i = 0; i < n[k]; ++i) want.push_back(10 * k + i);
      MC_CHECK(j->starts == 1 && j->finished && j->read == want, "the routine did not run to its end: " + Show(j->read));
      MC_CHECK(j->destroyed.load() == 1, "the routine is not destroyed at its end");
      MC_CHECK(j->resumes <= (int)want.size() + 2, "resumed too often");
    }, n0 == 2 ? 2 : 3);
  }
  // Interruption: nothing is called any more.
  for (int before = 0; before < 2; ++before) mc::Register(N("routine-interrupted[%d]", before), [=] {
    auto j = std::make_shared<Journal>();
    auto [s, w] = Streams(1);
    if (before) j->stop = true;
    { auto ex = Exec('1'); kp::StartBasicRoutine(ex, std::make_unique<Hooks>(j, ex, nullptr, s)); }
    mc::Quiesce();
    MC_CHECK(j->starts == !before, "Start");
    j->stop = true;
    w[0]->Write(V(1).AsRef());
    mc::Quiesce();
    MC_CHECK(j->resumes == 0, "Resume though interrupted");
    MC_CHECK(j->destroyed.load() == 1, "an interrupted routine is not destroyed");
  }, 3);
  // Cancellation: OnCancel at most once, while the routine lives; a routine
  // that waits is cancelled at once.
  for (char e : {'e', '1', '2'}) for (int n = 0; n < 3; ++n) mc::Register("routine-cancel" + N("[executor=%c,items=%d]", e, n), [=] {
    auto j = std::make_shared<Journal>();
    auto [s, w] = Streams(1);
    auto ctx = arolla::CancellationContext::Make();
    mc::Spawn([w = std::make_shared<StreamWriterPtr>(std::move(w[0])), n] {
      for (int i = 0; i < n; ++i) (*w)->Write(V(i).AsRef());
      if (n) std::move(**w).Close();
    }, "input");
    mc::Spawn([ctx] { ctx->Cancel(Err(7)); }, "canceller");
    { auto ex = Exec(e); arolla::CancellationContext::ScopeGuard g(ctx); kp::StartBasicRoutine(ex, std::make_unique<Hooks>(j, ex, ctx.get(), s, Err(7))); }
    mc::Quiesce();
    std::vector<int64_t> want;
    for (int i = 0; i < n; ++i) want.push_back(i);
    MC_CHECK(Prefix(j->read, want), "read " + Show(j->read));
    MC_CHECK(j->starts <= 1 && j->destroyed.load() == 1, "the cancelled routine");
  }, n && e == '2' ? 2 : 3);
  mc::Register("routine-cancel-waiting", [=] {
    auto j = std::make_shared<Journal>();
    auto [s, w] = Streams(1);
    auto ctx = arolla::CancellationContext::Make();
    { auto ex = Exec('1'); arolla::CancellationContext::ScopeGuard g(ctx); kp::StartBasicRoutine(ex, std::make_unique<Hooks>(j, ex, ctx.get(), s, Err(7))); }
    mc::Quiesce();
    MC_CHECK(j->starts == 1 && j->cancels.load() == 0, "before the cancellation");
    ctx->Cancel(Err(7));
    MC_CHECK(j->cancels.load() == 1, "OnCancel was not called");
    w[0]->Write(V(1).AsRef());
    mc::Quiesce();
    MC_CHECK(j->resumes == 0, "Resume after the cancellation");
    MC_CHECK(j->cancels.load() == 1 && j->destroyed.load() == 1, "after the cancellation");
  }, 3);
  mc::Register("routine-cancelled-before", [=] {
    auto j = std::make_shared<Journal>();
    auto [s, w] = Streams(1);
    auto ctx = arolla::CancellationContext::Make();
    ctx->Cancel(Err(7));
    arolla::CancellationContext::ScopeGuard g(ctx);
    auto ex = Exec('1');
    kp::StartBasicRoutine(ex, std::make_unique<Hooks>(j, ex, ctx.get(), s, Err(7)));
    mc::Quiesce();
    MC_CHECK(j->starts == 0 && j->cancels.load() == 1 && j->destroyed.load() == 1, "cancelled before the start");
  });
  for (int m = 0; m < 4; ++m) mc::Register(N("routine-dying[%d]", m), [=] {
    auto j = std::make_shared<Journal>();
    auto [s, w] = Streams(1);
    { auto ex = std::make_shared<DyingExecutor>(m); kp::StartBasicRoutine(ex, std::make_unique<Hooks>(j, ex, nullptr, s)); }
    for (int i = 0; i < 3; ++i) w[0]->Write(V(i).AsRef());
    MC_CHECK(j->starts == (m > 0) && j->resumes == std::min(std::max(m - 1, 0), 3) && (int)j->read.size() == j->resumes, "tasks " + std::to_string(j->resumes));
    MC_CHECK((j->destroyed.load() == 1) == (m < 4), "a routine that cannot go on is not destroyed");
  });

  // Reduce.
  auto rc = RCases();
  for (size_t k = 0; k < rc.size(); ++k) for (char e : {'e', '1', '2', 'f'}) for (int late = 0; late < 2; ++late) {
    const RCase c = rc[k];
    if (!late && e == 'f') continue;
    mc::Register("reduce" + N("[case=%d,executor=%c,late=%d]", k, e, late), [=] {
      auto calls = std::make_shared<std::vector<int>>();
      auto [s, feed] = Input(c.n, c.end);
      if (late) mc::Spawn([feed = feed] { feed(); }, "input"); else feed();
      auto res = Reduce(Exec(e), std::move(s), c, calls);
      auto out = Collector::Start(res);
      res.reset();
      mc::Quiesce();
      auto [want, st] = RRef(c);
      out->Expect(want, st, "reduce");
      if (st.ok()) MC_CHECK((int)calls->size() == c.n, "number of calls");
    }, e == '2' || e == 'f' ? 2 : 3);
  }
  for (size_t k = 0; k < rc.size(); k += 2) for (int m = 0; m <= rc[k].n + 1; ++m) mc::Register(N("reduce-dying[case=%d,tasks=%d]", k, m), [=] {
    const RCase c = rc[k];
    auto calls = std::make_shared<std::vector<int>>();
    auto [s, feed] = Input(c.n, c.end);
    auto res = Reduce(std::make_shared<DyingExecutor>(m), std::move(s), c, calls);
    feed();
    Read r = ReadAll(res);
    MC_CHECK(r.status.has_value(), "an executor has gone: the output was never closed");
    auto [want, st] = RRef(c);
    MC_CHECK((r.items == want && *r.status == st) || (r.items.empty() && *r.status == Orphan()), "reduce gave " + Show(r.items) + Str(*r.status));
  });
  for (int n = 0; n < 3; ++n) for (int open = 0; open < 2; ++open) for (char e : {'e', '1', '2'}) mc::Register("reduce-cancel" + N("[items=%d,open=%d,executor=%c]", n, open, e), [=] {
    const RCase c{n, 0, -1, 1};
    auto calls = std::make_shared<std::vector<int>>();
    auto [s, w] = kp::MakeStream(Q(kInt), 1);
    auto ctx = arolla::CancellationContext::Make();
    mc::Spawn([ctx] { ctx->Cancel(Err(50)); }, "canceller");
    std::shared_ptr<Collector> out;
    { arolla::CancellationContext::ScopeGuard g(ctx); out = Collector::Start(Reduce(Exec(e), std::move(s), c, calls)); }
    for (int i = 0; i < n; ++i) w->TryWrite(V(2 + i).AsRef());
    if (!open) w.reset(std::move(w).release()), std::move(*w).Close();
    mc::Quiesce();
    auto [want, st] = RRef(c);
    if (out->status().ok()) { MC_CHECK(!open && out->items() == want, "reduce gave " + Show(out->items())); return; }
    MC_CHECK(out->status() == Err(50) || out->status() == Orphan(), "cancelled, but closed with " + Str(out->status()));
    MC_CHECK(open ? out->items().empty() : Prefix(out->items(), want), "cancelled: " + Show(out->items()));
  }, n == 2 || e == '2' ? 2 : 3);
  mc::Register("reduce-cancel-waiting", [=] {
    auto calls = std::make_shared<std::vector<int>>();
    auto [s, w] = kp::MakeStream(Q(kInt), 1);
    auto ctx = arolla::CancellationContext::Make();
    StreamPtr res;
    { arolla::CancellationContext::ScopeGuard g(ctx); res = Reduce(Exec('1'), std::move(s), {1, 0, -1, 1}, calls); }
    mc::Quiesce();
    ctx->Cancel(Err(50));
    ExpectAll(res, {}, Err(50), "reduce cancelled");
    w->Write(V(2).AsRef());
    mc::Quiesce();
    MC_CHECK(calls->empty(), "the functor is called after the cancellation");
  }, 3);
  for (char e : {'e', '1', 'f'}) for (int n = 0; n < 3; ++n) mc::Register("reduce-abandon" + N("[executor=%c,items=%d]", e, n), [=] {
    auto calls = std::make_shared<std::vector<int>>();
    auto gone = std::make_shared<Flag>();
    auto after = std::make_shared<std::atomic<int>>(0);
    auto [s, feed] = Input(n, 0);
    mc::Spawn([feed = feed] { feed(); }, "input");
    auto res = kp::StreamReduce(Exec(e), V(1, kText), std::move(s), [gone, after](TypedRef a, TypedRef x) -> absl::StatusOr<TypedValue> {
      if (gone->Get()) after->fetch_add(1);
      return V(Fold(I(a), I(x)), kText);
    });
    auto r = res->MakeReader();
    res.reset();
    (void)r->TryRead();
    r.reset();
    gone->Set();
    mc::Quiesce();
    MC_CHECK(after->load() <= 1, "nobody reads the output, but the functor is called on and on");
  }, 2);

  // Calls.
  auto cc = CCases();
  for (size_t k = 0; k < cc.size(); ++k) for (char e : {'e', '1', '2'}) for (int late = 0; late < 2; ++late) {
    const CCase c = cc[k];
    if (c.args.empty() && late) continue;
    if (c.args.size() > 2 && e == '2') continue;
    mc::Register("call" + N("[case=%d,executor=%c,late=%d]", k, e, late), [=] {
      auto st = std::make_shared<CallState>();
      std::shared_ptr<Collector> out;
      {
        std::vector<Made> m;
        for (size_t i = 0; i < c.args.size(); ++i) m.push_back(MakeArg(c.args[i], i));
        for (auto& x : m) if (late) mc::Spawn([f = x.feed] { f(); }, "argument"); else x.feed();
        for (auto& x : m) x.feed = nullptr;
        auto res = Call(Exec(e), c, m, st);
        m.clear();
        out = Collector::Start(res);
      }
      mc::Quiesce();
      CheckCall(out->items(), out->status(), st->calls.load(), c);
    }, c.args.size() > 2 ? 1 : c.args.size() == 2 || c.res == 2 || e == '2' ? 2 : 3);
  }
  for (size_t k = 0; k < cc.size(); ++k) for (int m = 0; m < 4; ++m) {
    const CCase c = cc[k];
    if (c.res == 2) continue;
    mc::Register(N("call-dying[case=%d,tasks=%d]", k, m), [=] {
      auto st = std::make_shared<CallState>();
      std::vector<Made> a;
      for (size_t i = 0; i < c.args.size(); ++i) a.push_back(MakeArg(c.args[i], i));
      auto res = Call(std::make_shared<DyingExecutor>(m), c, a, st);
      for (auto& x : a) x.feed();
      Read r = ReadAll(res);
      MC_CHECK(r.status.has_value(), "an executor has gone: the output was never closed");
      if (*r.status == Orphan() && r.items.empty() && st->calls.load() == 0) return;
      CheckCall(r.items, *r.status, st->calls.load(), c);
    });
  }
  // An argument that never ends: not called; and cancelled.
  for (Arg a : {aOpen, aOneOpen}) for (char e : {'e', '1'}) mc::Register("call-open" + N("[arg=%d,executor=%c]", a, e), [=] {
    auto st = std::make_shared<CallState>();
    auto ctx = arolla::CancellationContext::Make();
    std::vector<Made> m;
    m.push_back(MakeArg(a, 0));
    StreamPtr res;
    { arolla::CancellationContext::ScopeGuard g(ctx); res = Call(Exec(e), {{a}, 0}, m, st); }
    mc::Spawn([f = m[0].feed] { f(); }, "argument");
    mc::Quiesce();
    auto r = res->MakeReader();
    MC_CHECK(r->TryRead().empty() && st->calls.load() == 0, "called before the argument is complete");
    ctx->Cancel(Err(50));
    ExpectAll(res, {}, Err(50), "call cancelled");
  }, 3);
  for (int res = 0; res < 3; ++res) for (char e : {'e', '1', '2'}) mc::Register("call-cancel" + N("[result=%d,executor=%c]", res, e), [=] {
    const CCase c{{aOne}, res};
    auto st = std::make_shared<CallState>();
    auto ctx = arolla::CancellationContext::Make();
    std::shared_ptr<Collector> out;
    mc::Spawn([ctx] { ctx->Cancel(Err(50)); }, "canceller");
    {
      std::vector<Made> m;
      m.push_back(MakeArg(aOne, 0));
      mc::Spawn([f = m[0].feed] { f(); }, "argument");
      arolla::CancellationContext::ScopeGuard g(ctx);
      auto r = Call(Exec(e), c, m, st);
      out = Collector::Start(r);
    }
    mc::Quiesce();
    auto [want, wst] = CRef(c);
    if (out->status().ok()) { MC_CHECK(out->items() == want, "the call gave " + Show(out->items())); return; }
    MC_CHECK(out->status() == Err(50) || out->status() == Orphan(), "cancelled, but closed with " + Str(out->status()));
    MC_CHECK(Prefix(out->items(), want), "cancelled: " + Show(out->items()));
  }, res && e == '2' ? 1 : 2);
  mc::Register("call-label", [=] {
    TypedValue v = V(1);
    MC_CHECK(kp::MakeStreamCallAwaitArg(v.AsRef()).GetType() == v.GetType(), "a label on what is no stream");
  });
};
