// R03: mapping a functor over a stream, in order and in any order.
#include "common.h"
#include "koladata/functor/parallel/stream_map.h"
using namespace scn;

namespace {
absl::Status Err(int k) { return absl::InternalError("error " + std::to_string(k)); }

struct Case { int n; int end; int f[4]; };   // end: 0 ok 1 error 2 orphaned; f: 0 value 1 error 2 wrong type
absl::Status InputEnd(int end) { return end == 0 ? absl::OkStatus() : end == 1 ? Err(99) : absl::CancelledError("orphaned"); }
absl::Status WrongType() {
  return absl::InvalidArgumentError("functor returned a value of the wrong type: expected " + std::string(Q(kText)->name()) + ", got INT64");
}
absl::Status FailsWith(const Case& c, int i) { return c.f[i] == 1 ? Err(i) : WrongType(); }
int64_t Out(int64_t x) { return 100 + x; }

std::vector<Case> Cases() {
  std::vector<Case> v;
  for (int end = 0; end < 3; ++end) v.push_back({0, end, {}});
  for (int end = 0; end < 3; ++end) for (int a = 0; a < 3; ++a) v.push_back({1, end, {a}});
  for (int end = 0; end < 2; ++end) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a + b < 3) v.push_back({2, end, {a, b}});
  v.push_back({3, 0, {0, 0, 0}});
  v.push_back({3, 0, {0, 1, 0}});
  v.push_back({3, 0, {1, 0, 1}});
  v.push_back({3, 1, {0, 0, 0}});
  v.push_back({3, 0, {0, 1, 1}});
  return v;
}
// In order: everything up to the first that fails.
std::pair<std::vector<int64_t>, absl::Status> Reference(const Case& c) {
  std::vector<int64_t> v;
  for (int i = 0; i < c.n; ++i) {
    if (c.f[i]) return {v, FailsWith(c, i)};
    v.push_back(Out(i));
  }
  return {v, InputEnd(c.end)};
}
bool Subset(std::vector<int64_t> v, const Case& c) {
  std::sort(v.begin(), v.end());
  for (size_t i = 0; i < v.size(); ++i) {
    if (i && v[i] == v[i - 1]) return false;
    if (v[i] < 100 || v[i] >= 100 + c.n || c.f[v[i] - 100]) return false;
  }
  return true;
}
void Check(const std::vector<int64_t>& items, const absl::Status& st, const Case& c, bool ordered) {
  auto [want, wst] = Reference(c);
  std::string got = Show(items) + " " + Str(st), exp = Show(want) + " " + Str(wst);
  if (ordered) {
    MC_CHECK(items == want && st == wst, "stream map gave " + got + ", expected " + exp);
    return;
  }
  MC_CHECK(Subset(items, c), "unordered stream map gave " + got + ", in order that is " + exp);
  if (wst.ok()) {
    MC_CHECK(st.ok() && (int)items.size() == c.n, "unordered stream map gave " + got + ", in order that is " + exp);
  } else {
    bool ok = c.end && st == InputEnd(c.end);
    for (int i = 0; i < c.n; ++i) ok = ok || (c.f[i] && st == FailsWith(c, i));
    MC_CHECK(ok, "unordered stream map gave " + got + ", in order that is " + exp);
  }
}
struct Calls { std::array<std::atomic<int>, 8> n{}; };
// The functor. It must run on the executor, in the cancellation context of the
// call, and once for an item.
struct F {
  Case c;
  std::shared_ptr<Calls> calls;
  std::weak_ptr<kp::Executor> ex;
  arolla::CancellationContext* ctx = nullptr;
  absl::StatusOr<TypedValue> operator()(TypedRef x) const {
    int64_t i = I(x);
    MC_CHECK(i >= 0 && i < c.n, "a functor called with something else");
    MC_CHECK(calls->n[i].fetch_add(1) == 0, "the functor was called twice for an item");
    MC_CHECK(kp::IsExecutorTask(), "a functor called outside of an executor");
    auto cur = kp::CurrentExecutor();
    MC_CHECK(cur.ok() && (*cur).get() == ex.lock().get(), "a functor called on another executor");
    MC_CHECK(arolla::CancellationContext::ScopeGuard::current_cancellation_context() == ctx, "a functor called in another cancellation context");
    if (c.f[i] == 1) return Err(i);
    if (c.f[i] == 2) return V(i, kInt);
    return V(Out(i), kText);
  }
};
StreamPtr Map(bool ordered, ExecutorPtr ex, const StreamPtr& s, F f) {
  f.ex = ex;
  f.ctx = arolla::CancellationContext::ScopeGuard::current_cancellation_context();
  return ordered ? kp::StreamMap(std::move(ex), s, Q(kText), std::move(f)) : kp::StreamMapUnordered(std::move(ex), s, Q(kText), std::move(f));
}
void Feed(StreamWriterPtr w, const Case& c) {
  for (int i = 0; i < c.n; ++i) w->Write(V(i, kInt).AsRef());
  if (c.end < 2) std::move(*w).Close(InputEnd(c.end));
  w.reset();
}
std::pair<StreamPtr, std::function<void()>> Input(const Case& c) {
  auto [s, w] = kp::MakeStream(Q(kInt), 1);
  auto* p = w.release();
  return {std::move(s), [=] { Feed(StreamWriterPtr(p), c); }};
}
}  // namespace

SCENARIOS {
  for (int ordered = 0; ordered < 2; ++ordered) {
    std::string op = ordered ? "map" : "map-unordered";
    auto cases = Cases();
    for (size_t k = 0; k < cases.size(); ++k) for (char e : {'e', '1', '2', 'f'}) for (int late = 0; late < 2; ++late) {
      const Case c = cases[k];
      if (late && (c.n > 2 || (e == 'f' && c.n > 1) || (c.n == 2 && e == '2' && c.end))) continue;
      mc::Register(op + N("[case=%d,executor=%c,late=%d]", k, e, late), [=] {
        auto calls = std::make_shared<Calls>();
        auto [s, feed] = Input(c);
        if (late) mc::Spawn([feed = feed] { feed(); }, "input"); else feed();
        std::shared_ptr<Collector> out;
        {
          auto ex = Exec(e);
          auto res = Map(ordered, ex, s, {c, calls});
          s.reset();
          out = Collector::Start(res);
        }
        mc::Quiesce();
        Check(out->items(), out->status(), c, ordered);
        int failed = 0;
        for (int i = 0; i < c.n; ++i) {
          // In order every item up to the first that fails is mapped.
          if (!failed && ordered) MC_CHECK(calls->n[i] == 1, "an item was not mapped");
          failed += c.f[i] != 0;
        }
      }, c.n == 3 ? (e == 'f' ? 1 : 2) : late && (c.n == 2 || e == 'f') ? 2 : 3);
    }
    // The executor stops at some point.
    for (size_t k = 0; k < cases.size(); k += 3) for (int m = 0; m <= cases[k].n + 1; ++m) for (int late = 0; late < 2; ++late) {
      const Case c = cases[k];
      mc::Register(op + N("-dying[case=%d,tasks=%d,late=%d]", k, m, late), [=] {
        auto calls = std::make_shared<Calls>();
        auto [s, feed] = Input(c);
        if (!late) feed();
        auto res = Map(ordered, std::make_shared<DyingExecutor>(m), s, {c, calls});
        s.reset();
        if (late) feed();
        Read r = ReadAll(res);
        MC_CHECK(r.status.has_value(), "an executor has gone: the output was never closed");
        auto [want, st] = Reference(c);
        if (ordered) MC_CHECK(Prefix(r.items, want), "items " + Show(r.items)); else MC_CHECK(Subset(r.items, c), "items " + Show(r.items));
        if (r.status->ok()) Check(r.items, *r.status, c, ordered);
        else if (*r.status != absl::CancelledError("orphaned")) {
          if (ordered) MC_CHECK(r.items == want && *r.status == st, "stream map gave " + Show(r.items) + Str(*r.status));
          else Check(r.items, *r.status, c, ordered);
        }
      });
    }
    // Cancellation from another thread.
    for (int n = 0; n < 3; ++n) for (int open = 0; open < 2; ++open) for (char e : {'e', '1', '2'}) {
      if (n == 2 && e == '2' && !open) continue;
      mc::Register(op + N("-cancel[items=%d,open=%d,executor=%c]", n, open, e), [=] {
        const Case c{n, 0, {}};
        auto calls = std::make_shared<Calls>();
        auto ctx = arolla::CancellationContext::Make();
        auto [s, w] = kp::MakeStream(Q(kInt), 1);
        StreamWriterPtr keep;
        std::shared_ptr<Collector> out;
        {
          arolla::CancellationContext::ScopeGuard guard(ctx);
          for (int i = 0; i < n; ++i) w->Write(V(i, kInt).AsRef());
          auto res = Map(ordered, Exec(e), s, {c, calls});
          out = Collector::Start(res);
        }
        mc::Spawn([ctx] { ctx->Cancel(Err(50)); }, "canceller");
        if (open) keep = std::move(w); else { std::move(*w).Close(); w.reset(); }
        s.reset();
        mc::Quiesce();
        bool cancelled = out->status() == Err(50);
        if (open) MC_CHECK(cancelled, "cancelled while the input is open, but closed with " + Str(out->status()));
        if (!cancelled) { Check(out->items(), out->status(), c, ordered); return; }
        auto [want, st] = Reference(c);
        if (ordered) MC_CHECK(Prefix(out->items(), want), "items " + Show(out->items())); else MC_CHECK(Subset(out->items(), c), "items " + Show(out->items()));
        if (keep) { keep->Write(V(n).AsRef()); keep.reset(); mc::Quiesce(); MC_CHECK((int)out->items().size() <= n, "mapping goes on after the cancellation"); }
      }, n < 2 ? 3 : 2);
    }
    // Cancelled before it starts, and from within the functor.
    mc::Register(op + "-cancelled-before", [=] {
      auto ctx = arolla::CancellationContext::Make();
      ctx->Cancel(Err(50));
      arolla::CancellationContext::ScopeGuard guard(ctx);
      auto [s, w] = kp::MakeStream(Q(kInt), 1);
      auto calls = std::make_shared<Calls>();
      w->Write(V(0).AsRef());
      auto res = Map(ordered, Exec('e'), s, {{2, 0, {}}, calls});
      w->TryWrite(V(1).AsRef());
      ExpectAll(res, {}, Err(50), "cancelled before the start");
      MC_CHECK(calls->n[0] == 0 && calls->n[1] == 0, "cancelled, but the functor is called");
    });
    // The output is abandoned: the mapping stops, nothing crashes, and the
    // input is let go.
    for (char e : {'e', '1', '2'}) for (int n = 1; n < 4; ++n) mc::Register(op + N("-abandon[executor=%c,items=%d]", e, n), [=] {
      const Case c{n, 0, {}};
      auto calls = std::make_shared<Calls>();
      auto gone = std::make_shared<Flag>();
      auto after = std::make_shared<std::atomic<int>>(0);
      auto [s, feed] = Input(c);
      mc::Spawn([feed = feed] { feed(); }, "input");
      auto ex = Exec(e);
      auto f = F{c, calls, ex, nullptr};
      auto wrap = [f, gone, after](TypedRef x) -> absl::StatusOr<TypedValue> {
        if (gone->Get()) after->fetch_add(1);
        return f(x);
      };
      auto res = ordered ? kp::StreamMap(ex, s, Q(kText), wrap) : kp::StreamMapUnordered(ex, s, Q(kText), wrap);
      s.reset();
      auto r = res->MakeReader();
      res.reset();
      ex.reset();
      (void)r->TryRead();
      r.reset();
      gone->Set();
      mc::Quiesce();
      // One call finds out. (With two workers a write in progress keeps the
      // stream, so that the calls of the other one do not find out.)
      MC_CHECK(e == '2' || after->load() <= 1, "nobody reads the output, but the functor is called on and on");
    }, n == 3 ? 1 : 2);
    // Each item is passed on when it is ready, not at the end.
    mc::Register(op + "-prompt", [=] {
      const Case c{2, 0, {}};
      auto [s, w] = kp::MakeStream(Q(kInt), 1);
      auto calls = std::make_shared<Calls>();
      auto res = Map(ordered, Exec('e'), s, {c, calls});
      auto r = res->MakeReader();
      for (int i = 0; i < 2; ++i) {
        MC_CHECK(r->TryRead().empty(), "something to read too early");
        w->Write(V(i).AsRef());
        auto t = r->TryRead();
        MC_CHECK(t.item() && I(*t.item()) == Out(i), "an item is not passed on at once");
      }
      std::move(*w).Close();
      auto t = r->TryRead();
      MC_CHECK(t.close_status() && t.close_status()->ok(), "the end is not passed on at once");
    });
    // Two maps in a row on one executor.
    for (char e : {'e', '1', '2'}) mc::Register(op + N("-twice[executor=%c]", e), [=] {
      const Case c{2, 0, {}};
      auto [s, feed] = Input(c);
      mc::Spawn([feed = feed] { feed(); }, "input");
      auto ex = Exec(e);
      auto inc = [](TypedRef x) -> absl::StatusOr<TypedValue> { return V(I(x) + 10, kText); };
      auto m = [&](StreamPtr x) { return ordered ? kp::StreamMap(ex, x, Q(kText), inc) : kp::StreamMapUnordered(ex, x, Q(kText), inc); };
      auto res = m(m(s));
      s.reset();
      ex.reset();
      auto out = Collector::Start(res);
      res.reset();
      mc::Quiesce();
      auto v = out->items();
      if (!ordered) std::sort(v.begin(), v.end());
      MC_CHECK(out->status().ok() && v == (std::vector<int64_t>{20, 21}), "two maps gave " + Show(out->items()) + Str(out->status()));
    }, e == '2' ? 1 : 2);
  }
};
