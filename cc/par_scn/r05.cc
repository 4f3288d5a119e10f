// R05: loops over a stream, and while a condition holds.
#include "common.h"
#include "arolla/qtype/tuple_qtype.h"
#include "koladata/data_slice.h"
#include "koladata/data_slice_qtype.h"
#include "koladata/functor/parallel/stream_for.h"
#include "koladata/functor/parallel/stream_qtype.h"
#include "koladata/functor/parallel/stream_while.h"
using namespace scn;

namespace {
using koladata::DataSlice;
absl::Status Err(int k) { return absl::InternalError("error " + std::to_string(k)); }
absl::Status Orphan() { return absl::CancelledError("orphaned"); }
absl::Status InputEnd(int end) { return end == 0 ? absl::OkStatus() : end == 1 ? Err(99) : Orphan(); }

// What a body (or a finalizer) returns.
enum Body { bAll, bI, bOut, bNone, bErr, bUnknown, bType, bNoTuple, bOutType, bT };
// What a condition returns at the call number `at`.
enum Cond { cNo, cMissingObject, cErr, cInt, cNotMask, cMissingInt, cEmptyStream, cStreamErr, cIntStream, cSliceNotItem, cOrphanStream, cBadStream };
struct Loop {
  bool is_for, yields;
  int n = 0, end = 0;          // the input
  bool has_cond = false;
  int style = 0;               // 0 a slice, 1 a ready stream, 2 one written later
  int at = 0; Cond bad = cNo;  // true before call `at`, then this
  std::vector<Body> body;      // for each iteration; then bAll
  bool has_fin = false; Body fin = bAll;
};
struct Step { char kind; int64_t x, i, t, ret; };
std::string Show1(const Step& s) {
  return std::string(1, s.kind) + "(x=" + std::to_string(s.x) + ",i=" + std::to_string(s.i) + ",t=" + std::to_string(s.t) + ",out=" + std::to_string(s.ret) + ")";
}
struct Result { std::vector<int64_t> items; absl::Status status; bool any_invalid = false; std::vector<Step> steps; };

// How a body changes the state. False: it fails.
struct State { int64_t i = 0, t = 1, ret = 7; };
bool Apply(Body b, bool fin, int64_t x, bool yields, State* s, Result* r) {
  int64_t k = fin ? 5 : x;
  if (b == bErr) { r->status = Err(fin ? 77 : 70 + s->i); return false; }
  if (b == bUnknown || b == bType || b == bNoTuple || b == bOutType) { r->any_invalid = true; return false; }
  bool out = b == bAll || b == bOut;
  int64_t v = s->ret * 10 + k, y = 100 + 10 * s->t + k;
  if (b == bAll || b == bT) s->t = (s->t * 10 + k) % 1000;
  if (b == bAll || b == bI) s->i += 1;
  if (out) { if (yields) r->items.push_back(y); else s->ret = v; }
  return true;
}
Result Reference(const Loop& l) {
  Result r;
  State s;
  if (l.yields) r.items.push_back(7);
  int conds = 0, iter = 0;
  auto out = [&] { return l.yields ? -1 : s.ret; };
  for (;;) {
    if (l.has_cond) {
      r.steps.push_back({'c', -1, s.i, s.t, out()});
      if (conds++ == l.at) {
        if (l.bad == cNo || l.bad == cMissingObject) break;
        if (l.bad == cErr) r.status = Err(60); else if (l.bad == cStreamErr) r.status = Err(61); else if (l.bad == cOrphanStream) r.status = Orphan(); else r.any_invalid = true;
        return r;
      }
    }
    int64_t x = l.is_for ? iter + 2 : s.i;
    if (l.is_for && iter == l.n) {
      if (l.end) { r.status = InputEnd(l.end); return r; }
      if (l.has_fin) {
        r.steps.push_back({'f', -1, s.i, s.t, out()});
        if (!Apply(l.fin, true, 0, l.yields, &s, &r)) return r;
      }
      break;
    }
    r.steps.push_back({'b', l.is_for ? x : -1, s.i, s.t, out()});
    Body b = iter < (int)l.body.size() ? l.body[iter] : bAll;
    ++iter;
    if (!Apply(b, false, x, l.yields, &s, &r)) return r;
  }
  if (!l.yields) r.items.push_back(s.ret);
  return r;
}

const char* kOut[2] = {"returns", "yields"};
// The functors: every call must be the next one of the reference.
struct Machine {
  Loop l;
  Result ref;
  std::weak_ptr<kp::Executor> ex;
  arolla::CancellationContext* ctx = nullptr;
  size_t at = 0;                // not atomic: the calls are serial
  int conds = 0, iter = 0;
  std::function<void(char kind, int n)> hook;
  std::vector<std::function<void()>> later;

  Step Args(char kind, absl::Span<const TypedRef> args, absl::Span<const std::string> names) {
    Step s{kind, -1, -1, -1, -1};
    MC_CHECK(args.size() >= names.size(), "arguments");
    size_t extra = args.size() - names.size();
    MC_CHECK(extra == (kind == 'b' && l.is_for ? 1 : 0), "a loop functor got the wrong number of arguments");
    if (extra) s.x = I(args[0]);
    MC_CHECK(names.size() == (l.yields ? 2 : 3), "a loop functor got the wrong variables");
    for (size_t k = 0; k < names.size(); ++k) {
      int64_t v = I(args[extra + k]);
      if (names[k] == "i") s.i = v; else if (names[k] == "t") s.t = v; else if (names[k] == "returns" && !l.yields) s.ret = v;
      else MC_CHECK(false, "an unexpected variable " + names[k]);
    }
    return s;
  }
  void Check(const Step& s) {
    MC_CHECK(kp::IsExecutorTask(), "a loop functor runs outside of an executor");
    auto cur = kp::CurrentExecutor();
    MC_CHECK(cur.ok() && (*cur).get() == ex.lock().get(), "a loop functor runs on another executor");
    MC_CHECK(arolla::CancellationContext::ScopeGuard::current_cancellation_context() == ctx, "a loop functor runs in another cancellation context");
    std::string what = Show1(s) + " is call " + std::to_string(at);
    MC_CHECK(at < ref.steps.size(), what + "; the loop should have ended");
    const Step& w = ref.steps[at];
    MC_CHECK(w.kind == s.kind && w.x == s.x && w.i == s.i && w.t == s.t && w.ret == s.ret, what + ", expected " + Show1(w));
    ++at;
  }
  absl::StatusOr<TypedValue> Do(Body b, bool fin, const Step& st) {
    if (b == bErr) return Err(fin ? 77 : 70 + st.i);
    if (b == bNoTuple) return V(3);
    int64_t k = fin ? 5 : l.is_for ? st.x : st.i;
    std::vector<std::string> names;
    std::vector<TypedValue> vals;
    auto add = [&](std::string n, TypedValue v) { names.push_back(std::move(n)); vals.push_back(std::move(v)); };
    if (b == bAll || b == bOut) add(kOut[l.yields], V(l.yields ? 100 + 10 * st.t + k : st.ret * 10 + k, kText));
    if (b == bOutType) add(kOut[l.yields], V(1));
    if (b == bAll || b == bT) add("t", V((st.t * 10 + k) % 1000, kText));
    if (b == bAll || b == bI) add("i", V(st.i + 1));
    if (b == bUnknown) add("z", V(1));
    if (b == bType) add("t", V(1));
    std::vector<TypedRef> refs;
    for (auto& v : vals) refs.push_back(v.AsRef());
    return arolla::MakeNamedTuple(names, refs);
  }
  absl::StatusOr<TypedValue> BodyCall(absl::Span<const TypedRef> args, absl::Span<const std::string> names) {
    Step s = Args('b', args, names);
    if (hook) hook('b', iter);
    Check(s);
    Body b = iter < (int)l.body.size() ? l.body[iter] : bAll;
    ++iter;
    return Do(b, false, s);
  }
  absl::StatusOr<TypedValue> FinCall(absl::Span<const TypedRef> args, absl::Span<const std::string> names) {
    Step s = Args('f', args, names);
    if (hook) hook('f', 0);
    Check(s);
    return Do(l.fin, true, s);
  }
  absl::StatusOr<TypedValue> CondCall(absl::Span<const TypedRef> args, absl::Span<const std::string> names) {
    Step s = Args('c', args, names);
    if (hook) hook('c', conds);
    Check(s);
    bool last = conds++ == l.at;
    DataSlice yes(koladata::internal::DataItem(arolla::Unit{}), koladata::schema::kMask), no(koladata::internal::DataItem(), koladata::schema::kMask);
    DataSlice d = yes;
    if (last) switch (l.bad) {
      case cNo: d = no; break;
      case cMissingObject: d = DataSlice(koladata::internal::DataItem(), koladata::schema::kObject); break;
      case cErr: return Err(60);
      case cInt: return V(1);
      case cNotMask: case cBadStream: d = DataSlice(koladata::internal::DataItem(5), koladata::schema::kInt32); break;
      case cMissingInt: d = DataSlice(koladata::internal::DataItem(), koladata::schema::kInt32); break;
      case cSliceNotItem: d = DataSlice(koladata::internal::DataItem(arolla::Unit{}), koladata::schema::kMask, false); break;
      default: break;
    }
    bool stream = l.style > 0 || (last && l.bad >= cEmptyStream && l.bad != cSliceNotItem);
    if (!stream) return TypedValue::FromValue(d);
    auto [out, w] = kp::MakeStream(last && l.bad == cIntStream ? Q(kInt) : arolla::GetQType<DataSlice>(), 1);
    TypedValue v = kp::MakeStreamQValue(out);
    auto write = [w = std::make_shared<StreamWriterPtr>(std::move(w)), d, bad = last ? l.bad : cNo] {
      if (bad == cIntStream) (*w)->Write(V(1).AsRef());
      else if (bad != cEmptyStream && bad != cStreamErr && bad != cOrphanStream) (*w)->Write(TypedRef::FromValue(d));
      if (bad != cOrphanStream) std::move(**w).Close(bad == cStreamErr ? Err(61) : absl::OkStatus());
      w->reset();
    };
    if (l.style == 2) mc::Spawn(write, "condition"); else write();
    return v;
  }
};
// Keeps the tasks until Run().
class DeferExecutor final : public kp::Executor {
 public:
  std::string Repr() const noexcept final { return "defer"; }
  void Run() {
    while (!q_.empty()) { TaskFn t = std::move(q_.front()); q_.erase(q_.begin()); std::move(t)(); }
  }
 protected:
  void DoSchedule(TaskFn task) noexcept final { q_.push_back(std::move(task)); }
 private:
  std::vector<TaskFn> q_;
};
std::shared_ptr<Machine> Make(const Loop& l) {
  auto m = std::make_shared<Machine>();
  m->l = l;
  m->ref = Reference(l);
  return m;
}
StreamPtr Start(std::shared_ptr<Machine> m, ExecutorPtr ex, const StreamPtr& in) {
  const Loop& l = m->l;
  m->ex = ex;
  m->ctx = arolla::CancellationContext::ScopeGuard::current_cancellation_context();
  auto body = [m](absl::Span<const TypedRef> a, absl::Span<const std::string> n) { return m->BodyCall(a, n); };
  auto cond = [m](absl::Span<const TypedRef> a, absl::Span<const std::string> n) { return m->CondCall(a, n); };
  auto fin = [m](absl::Span<const TypedRef> a, absl::Span<const std::string> n) { return m->FinCall(a, n); };
  TypedValue i = V(0), t = V(1, kText), out = V(7, kText);
  auto state = arolla::MakeNamedTuple({"i", "t"}, {i.AsRef(), t.AsRef()});
  absl::StatusOr<StreamPtr> r = absl::InternalError("");
  if (l.is_for) {
    kp::StreamForFunctor c = nullptr, f = nullptr;
    if (l.has_cond) c = cond;
    if (l.has_fin) f = fin;
    if (l.yields) r = kp::StreamForYields(std::move(ex), in, body, std::move(f), std::move(c), "yields", out.AsRef(), state->AsRef());
    else r = kp::StreamForReturns(std::move(ex), in, body, std::move(f), std::move(c), out.AsRef(), state->AsRef());
  } else {
    if (l.yields) r = kp::StreamWhileYields(std::move(ex), cond, body, "yields", out.AsRef(), state->AsRef());
    else r = kp::StreamWhileReturns(std::move(ex), cond, body, out.AsRef(), state->AsRef());
  }
  MC_CHECK(r.ok(), "the loop does not start");
  return *std::move(r);
}
std::pair<StreamPtr, std::function<void()>> Input(const Loop& l) {
  auto [s, w] = kp::MakeStream(Q(kText), 1);
  auto p = std::make_shared<StreamWriterPtr>(std::move(w));
  return {std::move(s), [p, n = l.n, end = l.end] {
    StreamWriterPtr& w = *p;
    for (int i = 0; i < n; ++i) w->TryWrite(V(2 + i, kText).AsRef());
    if (end < 2) { auto x = std::move(w); if (!x->Orphaned()) x->TryClose(InputEnd(end)); }
    w.reset();
  }};
}
bool SameEnd(const absl::Status& st, const Result& ref) {
  return ref.any_invalid ? st.code() == absl::StatusCode::kInvalidArgument : st == ref.status;
}
void Expect(const std::vector<int64_t>& items, const absl::Status& st, const Machine& m) {
  MC_CHECK(items == m.ref.items && SameEnd(st, m.ref), "the loop gave " + Show(items) + " " + Str(st) + ", expected " + Show(m.ref.items) + " " + (m.ref.any_invalid ? "an invalid argument" : Str(m.ref.status)));
  MC_CHECK(m.at == m.ref.steps.size(), "the loop made " + std::to_string(m.at) + " calls instead of " + std::to_string(m.ref.steps.size()));
}
// The loop was cut short.
void Partly(const std::vector<int64_t>& items, const absl::Status& st, const Machine& m, const std::vector<absl::Status>& ends) {
  if (items == m.ref.items && SameEnd(st, m.ref)) return;
  bool ok = false;
  for (auto& e : ends) ok = ok || st == e;
  MC_CHECK(ok, "a loop that was cut short ended with " + Str(st));
  MC_CHECK(Prefix(items, m.ref.items), "a loop that was cut short gave " + Show(items) + ", expected the beginning of " + Show(m.ref.items));
}

std::vector<Loop> Loops(bool wide) {
  std::vector<Loop> v;
  for (int y = 0; y < 2; ++y) {
    bool yields = y;
    for (int n = 0; n < (wide ? 4 : 3); ++n) for (int end = 0; end < 3; ++end) for (int fin = 0; fin < 2; ++fin)
      v.push_back({.is_for = true, .yields = yields, .n = n, .end = end, .has_fin = fin > 0});
    for (int style = 0; style < 3; ++style) for (int at = 0; at < (wide ? 4 : 3); ++at) {
      v.push_back({.is_for = true, .yields = yields, .n = 2, .has_cond = true, .style = style, .at = at, .has_fin = true});
      v.push_back({.is_for = false, .yields = yields, .has_cond = true, .style = style, .at = at});
    }
    v.push_back({.is_for = true, .yields = yields, .n = 1, .end = 1, .has_cond = true, .style = 2, .at = 9, .has_fin = true});
    if (!wide) continue;
    for (int a = bAll; a <= bT; ++a) for (int b = bAll; b <= bT; ++b) {
      v.push_back({.is_for = true, .yields = yields, .n = 2, .body = {(Body)a, (Body)b}, .has_fin = true});
      v.push_back({.is_for = false, .yields = yields, .has_cond = true, .at = 3, .body = {(Body)a, (Body)b}});
    }
    for (int c = cNo; c <= cBadStream; ++c) for (int at = 0; at < 3; ++at) for (int style = 0; style < 2; ++style) {
      v.push_back({.is_for = true, .yields = yields, .n = 2, .has_cond = true, .style = style, .at = at, .bad = (Cond)c, .has_fin = true});
      v.push_back({.is_for = false, .yields = yields, .has_cond = true, .style = style, .at = at, .bad = (Cond)c});
    }
    for (int f = bAll; f <= bT; ++f) for (int n = 0; n < 2; ++n)
      v.push_back({.is_for = true, .yields = yields, .n = n, .body = {bI}, .has_fin = true, .fin = (Body)f});
  }
  return v;
}
}  // namespace

SCENARIOS {
  // Every kind of body, condition and finalizer, on one thread.
  auto wide = Loops(true);
  for (size_t k = 0; k < wide.size(); k += 8) mc::Register(N("loops[%d]", k), [=] {
    for (size_t i = k; i < std::min(k + 8, wide.size()); ++i) for (char e : {'e', '1'}) for (int late = 0; late < 2; ++late) {
      const Loop& l = wide[i];
      if ((!l.is_for && late) || l.style == 2) continue;
      auto m = Make(l);
      auto [in, feed] = Input(l);
      if (!late) feed();
      auto out = Collector::Start(Start(m, Exec(e), in));
      in.reset();
      if (late) feed();
      mc::Quiesce();
      Expect(out->items(), out->status(), *m);
    }
  }, 0);
  // Inputs and conditions from other threads.
  auto some = Loops(false);
  for (size_t k = 0; k < some.size(); ++k) for (char e : {'e', '1', '2'}) {
    const Loop l = some[k];
    if (!l.is_for && l.style < 2) continue;
    mc::Register(std::string(l.is_for ? "for" : "while") + N("[case=%d,executor=%c]", k, e), [=] {
      auto m = Make(l);
      auto [in, feed] = Input(l);
      if (l.is_for) mc::Spawn([feed = feed] { feed(); }, "input"); else feed();
      feed = nullptr;
      auto res = Start(m, Exec(e), in);
      in.reset();
      auto out = Collector::Start(res);
      res.reset();
      mc::Quiesce();
      Expect(out->items(), out->status(), *m);
    }, l.style == 2 && (l.is_for || e == '2') ? 1 : e == '2' || l.n > 1 || l.style == 2 ? 2 : 3);
  }
  // The executor stops at some point.
  for (size_t k = 0; k < some.size(); ++k) for (int t = 0; t < 4; ++t) {
    const Loop l = some[k];
    if (l.style == 2 && t > 1) continue;
    mc::Register(N("dying[case=%d,tasks=%d]", k, t), [=] {
      auto m = Make(l);
      auto [in, feed] = Input(l);
      auto res = Start(m, std::make_shared<DyingExecutor>(t), in);
      feed();
      mc::Quiesce();
      Read r = ReadAll(res);
      MC_CHECK(r.status.has_value(), "an executor has gone: the output was never closed");
      Partly(r.items, *r.status, *m, {Orphan()});
    }, 1);
  }
  // Cancellation from another thread.
  for (int is_for = 0; is_for < 2; ++is_for) for (int y = 0; y < 2; ++y) for (int style = 0; style < 3; style += 2) for (int open = 0; open <= is_for; ++open) for (char e : {'e', '1', '2'}) {
    if (is_for && style && open) continue;
    Loop l{.is_for = is_for > 0, .yields = y > 0, .n = 1, .end = 0, .has_cond = !is_for || style, .style = style, .at = is_for ? 9 : 2, .has_fin = true};
    mc::Register(std::string(is_for ? "for" : "while") + "-cancel" + N("[yields=%d,condition=%d,open=%d,executor=%c]", y, style, open, e), [=] {
      auto m = Make(l);
      auto ctx = arolla::CancellationContext::Make();
      auto [in, w] = kp::MakeStream(Q(kText), 1);
      mc::Spawn([ctx] { ctx->Cancel(Err(50)); }, "canceller");
      std::shared_ptr<Collector> out;
      { arolla::CancellationContext::ScopeGuard g(ctx); out = Collector::Start(Start(m, Exec(e), in)); }
      in.reset();
      if (is_for) w->TryWrite(V(2, kText).AsRef());
      if (!open) w->TryClose(absl::OkStatus());
      mc::Quiesce();
      MC_CHECK(!open || !out->status().ok(), "cancelled while the input is open, but closed with " + Str(out->status()));
      Partly(out->items(), out->status(), *m, {Err(50), Orphan()});
    }, e == '2' || style ? 1 : 2);
  }
  // A loop that waits is cancelled at once, and calls nothing afterwards.
  for (int y = 0; y < 2; ++y) for (int cond = 0; cond < 2; ++cond) mc::Register(N("cancel-waiting[yields=%d,condition=%d]", y, cond), [=] {
    Loop l{.is_for = true, .yields = y > 0, .n = 2, .end = 0, .has_cond = cond > 0, .style = 1, .at = 9, .has_fin = true};
    auto m = Make(l);
    auto ctx = arolla::CancellationContext::Make();
    auto [in, w] = kp::MakeStream(Q(kText), 1);
    StreamPtr res;
    { arolla::CancellationContext::ScopeGuard g(ctx); res = Start(m, Exec('1'), in); }
    w->Write(V(2, kText).AsRef());
    mc::Quiesce();
    size_t at = m->at;
    MC_CHECK(at == (size_t)(1 + 2 * cond), "the loop does not take an item at once");
    ctx->Cancel(Err(50));
    Read r = ReadAll(res);
    MC_CHECK(r.status && *r.status == Err(50) && r.items.size() == (size_t)2 * y, "a waiting loop was cancelled: " + Show(r.items));
    w->TryWrite(V(3, kText).AsRef());
    w->TryClose(absl::OkStatus());
    mc::Quiesce();
    MC_CHECK(m->at == at, "a cancelled loop goes on");
  }, 2);
  // The loop is cancelled, or its output is let go, by one of its functors:
  // no body is called after that.
  for (int is_for = 0; is_for < 2; ++is_for) for (int y = 0; y < 2; ++y) for (int how = 0; how < 2; ++how) for (char kind : {'b', 'c'}) for (int nth = 0; nth < 3; ++nth) for (char e : {'e', '1'}) {
    if (how && e != 'e') continue;
    mc::Register(std::string(is_for ? "for" : "while") + (how ? "-let-go" : "-cancels-itself") + N("[yields=%d,by=%c,n=%d,executor=%c]", y, kind, nth, e), [=] {
      Loop l{.is_for = is_for > 0, .yields = y > 0, .n = 5, .end = 0, .has_cond = true, .at = 5, .has_fin = true};
      auto m = Make(l);
      auto ctx = arolla::CancellationContext::Make();
      auto r = std::make_shared<StreamReaderPtr>();
      auto [in, feed] = Input(l);
      auto done = std::make_shared<bool>(false);
      auto after = std::make_shared<int>(0);
      m->hook = [=](char k, int n) {
        if (*done) { MC_CHECK(k == 'c', "a body or finalizer is called though nobody needs the loop"); ++*after; }
        if (k == kind && n == nth) { *done = true; if (how) r->reset(); else ctx->Cancel(Err(50)); }
      };
      arolla::CancellationContext::ScopeGuard g(ctx);
      if (how) {
        // The work begins when the reader is there.
        auto ex = std::make_shared<DeferExecutor>();
        auto res = Start(m, ex, in);
        *r = res->MakeReader();
        res.reset();
        feed();
        ex->Run();
      } else {
        auto res = Start(m, Exec(e), in);
        feed();
        mc::Quiesce();
        Read x = ReadAll(res);
        MC_CHECK(x.status && *x.status == Err(50), "a cancelled loop ended with " + (x.status ? Str(*x.status) : "nothing"));
        MC_CHECK(Prefix(x.items, m->ref.items), "items " + Show(x.items));
      }
      MC_CHECK(*after <= 1, "a loop that nobody needs goes on and on");
      m->hook = nullptr;
    }, 0);
  }
  // The output is abandoned by another thread.
  for (int is_for = 0; is_for < 2; ++is_for) for (int y = 0; y < 2; ++y) for (char e : {'1', '2'}) mc::Register(std::string(is_for ? "for" : "while") + "-abandon" + N("[yields=%d,executor=%c]", y, e), [=] {
    Loop l{.is_for = is_for > 0, .yields = y > 0, .n = 2, .end = 0, .has_cond = !is_for, .style = 0, .at = 2, .has_fin = true};
    auto m = Make(l);
    auto [in, feed] = Input(l);
    if (is_for) mc::Spawn([feed = feed] { feed(); }, "input");
    auto gone = std::make_shared<Flag>();
    auto after = std::make_shared<int>(0);
    m->hook = [=](char k, int) { if (gone->Get() && k != 'c') ++*after; };
    auto res = Start(m, Exec(e), in);
    auto r = res->MakeReader();
    res.reset();
    (void)r->TryRead();
    r.reset();
    gone->Set();
    mc::Quiesce();
    MC_CHECK(*after <= 1, "nobody reads the output, but the loop goes on");
    m->hook = nullptr;
  }, 2);
  // The result of each iteration can be read at once.
  for (int is_for = 0; is_for < 2; ++is_for) mc::Register(std::string(is_for ? "for" : "while") + "-prompt", [=] {
    Loop l{.is_for = true, .yields = true, .n = 2, .end = 0, .has_fin = true};
    auto m = Make(l);
    auto [in, w] = kp::MakeStream(Q(kText), 1);
    auto res = Start(m, Exec('e'), in);
    auto r = res->MakeReader();
    for (size_t i = 0; i < m->ref.items.size(); ++i) {
      auto t = r->TryRead();
      MC_CHECK(t.item() && I(*t.item()) == m->ref.items[i], "a yielded item is not there at once");
      if (i < 2) { MC_CHECK(r->TryRead().empty(), "too early"); w->Write(V(2 + i, kText).AsRef()); }
      if (i == 2) { MC_CHECK(r->TryRead().empty(), "too early"); std::move(*w).Close(); }
    }
    auto t = r->TryRead();
    MC_CHECK(t.close_status() && t.close_status()->ok(), "the end");
  });
  // What cannot start.
  mc::Register("invalid", [=] {
    auto [in, w] = kp::MakeStream(Q(kText), 1);
    auto f = [](absl::Span<const TypedRef>, absl::Span<const std::string>) -> absl::StatusOr<TypedValue> { MC_CHECK(false, "called"); return V(1); };
    TypedValue one = V(1);
    auto ret = arolla::MakeNamedTuple({"i", "returns"}, {one.AsRef(), one.AsRef()});
    auto yld = arolla::MakeNamedTuple({"yld", "i"}, {one.AsRef(), one.AsRef()});
    auto ex = Exec('e');
    auto bad = [](const absl::StatusOr<StreamPtr>& r, const char* what) { MC_CHECK(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument, what); };
    bad(kp::StreamForReturns(ex, in, f, nullptr, nullptr, one.AsRef(), one.AsRef()), "no namedtuple");
    bad(kp::StreamForYields(ex, in, f, nullptr, nullptr, "yld", one.AsRef(), one.AsRef()), "no namedtuple");
    bad(kp::StreamWhileReturns(ex, f, f, one.AsRef(), one.AsRef()), "no namedtuple");
    bad(kp::StreamWhileYields(ex, f, f, "yld", one.AsRef(), one.AsRef()), "no namedtuple");
    bad(kp::StreamForReturns(ex, in, f, nullptr, nullptr, one.AsRef(), ret->AsRef()), "returns twice");
    bad(kp::StreamForYields(ex, in, f, nullptr, nullptr, "yld", one.AsRef(), yld->AsRef()), "yields twice");
    bad(kp::StreamWhileReturns(ex, f, f, one.AsRef(), ret->AsRef()), "returns twice");
    bad(kp::StreamWhileYields(ex, f, f, "yld", one.AsRef(), yld->AsRef()), "yields twice");
  });
};
