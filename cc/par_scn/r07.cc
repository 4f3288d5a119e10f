// R07: futures, their writers and consumers, streams from futures.
#include "common.h"
#include "koladata/functor/parallel/future.h"
using namespace scn;
using kp::FuturePtr;
using kp::FutureWriter;
using kp::MakeFuture;

namespace {
// What a future may end with.
absl::StatusOr<TypedValue> Result(char end, Ty ty) {
  if (end == 'v') return V(7, ty);
  return absl::InvalidArgumentError("boom");
}
absl::Status Orphaned() { return absl::CancelledError("orphaned"); }
// Sets 'v'alue or 'e'rror; 'o' destroys the writer; 'm' moves it and destroys;
// 'r' is replaced by another writer; 'M' moves, then a value.
struct Writer {
  std::unique_ptr<FutureWriter> w;
  void End(char end, Ty ty) {
    switch (end) {
      case 'o': w.reset(); break;
      case 'm': { FutureWriter v(std::move(*w)); w.reset(); break; }
      case 'r': { auto [f, v] = MakeFuture(Q(ty)); *w = std::move(v); MC_CHECK(!f->PeekValue(), "the other future is set"); std::move(*w).SetValue(V(8, ty)); auto p = f->PeekValue(); MC_CHECK(p && p->ok() && I(**p) == 8, "the other future is not set"); w.reset(); break; }
      case 'M': { FutureWriter v(std::move(*w)); w.reset(); std::move(v).SetValue(V(7, ty)); break; }
      default: std::move(*w).SetValue(Result(end, ty)); w.reset();
    }
  }
};
void CheckResult(const absl::StatusOr<TypedValue>& r, char end, const char* who) {
  if (end == 'v' || end == 'M') { MC_CHECK(r.ok(), std::string(who) + ": " + Str(r.status()) + " instead of a value"); MC_CHECK(I(*r) == 7, std::string(who) + ": another value"); }
  else { MC_CHECK(!r.ok(), std::string(who) + ": a value instead of an error"); MC_CHECK(r.status() == (end == 'e' ? absl::InvalidArgumentError("boom") : Orphaned()), std::string(who) + ": " + Str(r.status())); }
}
absl::StatusOr<TypedValue> Copy(const absl::StatusOr<const TypedValue&>& p) {
  if (!p.ok()) return p.status();
  return *p;
}
void CheckPeek(const FuturePtr& f, char end) {
  auto p = f->PeekValue();
  MC_CHECK(p.has_value(), "a future is never set");
  CheckResult(Copy(*p), end, "PeekValue");
  auto q = f->PeekValue();
  MC_CHECK(q.has_value() && q->ok() == p->ok() && (!p->ok() || &**q == &**p), "PeekValue gives another value");
  CheckResult(f->GetValueForTesting(), end, "GetValueForTesting");
}
// A consumer: runs once with the result, and is destroyed.
struct Seen { std::array<std::atomic<int>, 8> runs{}, dead{}; };
struct Consumer {
  std::shared_ptr<Seen> s;
  int id;
  char end;
  std::function<void()> then;
  bool live = true;
  Consumer(std::shared_ptr<Seen> s, int id, char end, std::function<void()> then = nullptr) : s(std::move(s)), id(id), end(end), then(std::move(then)) {}
  Consumer(Consumer&& o) : s(std::move(o.s)), id(o.id), end(o.end), then(std::move(o.then)), live(std::exchange(o.live, false)) {}
  ~Consumer() { if (live) s->dead[id].fetch_add(1); }
  void operator()(absl::StatusOr<TypedValue> r) {
    MC_CHECK(live, "a consumer that was moved away is called");
    MC_CHECK(s->runs[id].fetch_add(1) == 0, "a consumer is called twice");
    CheckResult(r, end, "a consumer");
    if (then) then();
  }
};
void AllRan(const Seen& s, int n) {
  for (int i = 0; i < n; ++i) {
    MC_CHECK(s.runs[i].load() == 1, "a consumer is never called");
    MC_CHECK(s.dead[i].load() == 1, "a consumer is kept, or destroyed twice");
  }
}
const std::string kEnds = "veomrM";
}  // namespace

SCENARIOS {
  for (Ty ty : {kInt, kText}) for (char end : kEnds) {
    const std::string tag = N("[end=%c,type=%d]", end, ty);
    // One thread: before, after, within.
    mc::Register("sequence" + tag, [=] {
      auto [f, w] = MakeFuture(Q(ty));
      auto s = std::make_shared<Seen>();
      MC_CHECK(f->value_qtype() == Q(ty) && w.value_qtype() == Q(ty), "qtype");
      MC_CHECK(!f->PeekValue() && !f->GetValueForTesting().ok(), "a new future has a value");
      f->AddConsumer(Consumer(s, 0, end));
      f->AddConsumer(Consumer(s, 1, end, [&f = f, s, end] {
        CheckPeek(f, end);
        f->AddConsumer(Consumer(s, 2, end, [f, end] { CheckPeek(f, end); }));
        MC_CHECK(s->runs[2].load() == 1, "a consumer of a set future is not called at once");
      }));
      f->AddConsumer(Consumer(s, 3, end));
      MC_CHECK(s->runs[0].load() + s->runs[1].load() + s->runs[3].load() == 0 && !f->PeekValue(), "a consumer is called before the value");
      Writer wr{std::make_unique<FutureWriter>(std::move(w))};
      wr.End(end, ty);
      AllRan(*s, 4);
      CheckPeek(f, end);
      f->AddConsumer(Consumer(s, 4, end));
      AllRan(*s, 5);
      CheckPeek(f, end);
    });
    // Consumers from other threads while the value is being set.
    for (int threads = 1; threads < 4; ++threads) for (int per = 1; per < (threads > 1 ? 2 : 3); ++per) for (int nested = 0; nested < 2; ++nested) {
      if (ty != kInt && (threads > 2 || nested)) continue;
      mc::Register("consumers" + N("[threads=%d,each=%d,nested=%d]", threads, per, nested) + tag, [=] {
        auto [f0, w] = MakeFuture(Q(ty));
        FuturePtr f = f0;
        auto s = std::make_shared<Seen>();
        for (int t = 0; t < threads; ++t) mc::Spawn([=] {
          for (int k = 0; k < per; ++k) {
            int id = t * per + k;
            f->AddConsumer(Consumer(s, id, end, !nested || id ? std::function<void()>() : [=] { CheckPeek(f, end); f->AddConsumer(Consumer(s, threads * per, end)); }));
          }
        }, "consumers");
        auto wr = std::make_shared<Writer>(Writer{std::make_unique<FutureWriter>(std::move(w))});
        mc::Spawn([=] { wr->End(end, ty); CheckPeek(f, end); }, "writer");
        mc::Quiesce();
        AllRan(*s, threads * per + nested);
        CheckPeek(f, end);
      }, threads * per > 2 ? 2 : 4);
    }
    // Peeking.
    mc::Register("peek" + tag, [=] {
      auto [f0, w] = MakeFuture(Q(ty));
      FuturePtr f = f0;
      for (int t = 0; t < 2; ++t) mc::Spawn([=] {
        bool had = false;
        const TypedValue* at = nullptr;
        for (int k = 0; k < 3; ++k) {
          auto p = f->PeekValue();
          MC_CHECK(p.has_value() || !had, "a value is gone");
          if (!p.has_value()) continue;
          had = true;
          CheckResult(Copy(*p), end, "PeekValue");
          if (p->ok()) { MC_CHECK(!at || at == &**p, "PeekValue gives another value"); at = &**p; }
        }
        auto g = f->GetValueForTesting();
        if (had) CheckResult(g, end, "GetValueForTesting");
      }, "peeks");
      Writer wr{std::make_unique<FutureWriter>(std::move(w))};
      wr.End(end, ty);
      mc::Quiesce();
      CheckPeek(f, end);
    }, 3);
    // The future is let go by everyone but the writer.
    mc::Register("let-go" + tag, [=] {
      auto s = std::make_shared<Seen>();
      auto wr = std::make_shared<Writer>();
      {
        auto [f0, w] = MakeFuture(Q(ty));
        wr->w = std::make_unique<FutureWriter>(std::move(w));
        FuturePtr f = f0;
        mc::Spawn([f = std::move(f), s, end]() mutable { f->AddConsumer(Consumer(s, 0, end)); f.reset(); }, "consumer");
      }
      mc::Spawn([=] { wr->End(end, ty); }, "writer");
      mc::Quiesce();
      AllRan(*s, 1);
    }, 4);
    // Streams from it.
    for (int readers = 1; readers < 4; ++readers) for (int mode = 0; mode < 3; ++mode) {
      if (ty != kInt && readers > 1) continue;
      // mode 0: from the stream; 1: directly; 2: a stream for each.
      mc::Register("readers" + N("[readers=%d,mode=%d]", readers, mode) + tag, [=] {
        auto [f0, w] = MakeFuture(Q(ty));
        FuturePtr f = f0;
        auto stream = kp::StreamFromFuture(f);
        MC_CHECK(stream->value_qtype() == Q(ty), "qtype of the stream");
        struct S2 final : kp::Stream {
          FuturePtr f;
          explicit S2(FuturePtr f) : Stream(f->value_qtype()), f(f) {}
          StreamReaderPtr MakeReader() final { return kp::StreamReaderFromFuture(f); }
        };
        std::vector<std::shared_ptr<Collector>> c(readers);
        auto cs = std::make_shared<std::vector<std::shared_ptr<Collector>>>(readers);
        for (int r = 0; r < readers; ++r) mc::Spawn([=] {
          StreamPtr mine = mode == 0 ? stream : mode == 1 ? StreamPtr(std::make_shared<S2>(f)) : kp::StreamFromFuture(f);
          (*cs)[r] = Collector::Start(mine);
        }, "reader");
        f.reset(); f0.reset();
        auto wr = std::make_shared<Writer>(Writer{std::make_unique<FutureWriter>(std::move(w))});
        mc::Spawn([=] { wr->End(end, ty); }, "writer");
        mc::Quiesce();
        const bool v = end == 'v' || end == 'M';
        absl::Status st = v ? absl::OkStatus() : end == 'e' ? absl::InvalidArgumentError("boom") : Orphaned();
        std::vector<int64_t> items = v ? std::vector<int64_t>{7} : std::vector<int64_t>{};
        for (auto& k : *cs) { k->Expect(items, st, "a reader"); k->CheckRefs(); }
        ExpectAll(stream, items, st, "a late reader");
        ExpectAll(stream, items, st, "another late reader");
      }, readers > 2 ? 2 : 3);
    }
    // Reads of one reader, one by one.
    mc::Register("reader-steps" + tag, [=] {
      auto [f, w] = MakeFuture(Q(ty));
      auto r = kp::StreamReaderFromFuture(f), r2 = kp::StreamFromFuture(f)->MakeReader();
      for (int k = 0; k < 2; ++k) { auto t = r->TryRead(); MC_CHECK(!t.item() && !t.close_status() && t.empty(), "an item before the value"); }
      int calls = 0, calls2 = 0;
      r->SubscribeOnce([&] { ++calls; });
      r2->SubscribeOnce([&] { ++calls2; auto t = r2->TryRead(); MC_CHECK(!t.empty(), "a callback but nothing to read"); r2->SubscribeOnce([&] { ++calls2; }); });
      MC_CHECK(calls + calls2 == 0, "a callback before the value");
      Writer wr{std::make_unique<FutureWriter>(std::move(w))};
      wr.End(end, ty);
      MC_CHECK(calls == 1 && calls2 == 2, "callbacks when the value is set");
      f.reset();
      const bool v = end == 'v' || end == 'M';
      absl::Status st = v ? absl::OkStatus() : end == 'e' ? absl::InvalidArgumentError("boom") : Orphaned();
      if (v) {
        auto t = r->TryRead();
        MC_CHECK(t.item() && I(*t.item()) == 7 && !t.close_status() && !t.empty(), "the item");
        auto item = *t.item();
        for (int k = 0; k < 3; ++k) { auto u = r->TryRead(); MC_CHECK(u.close_status() && u.close_status()->ok() && !u.item(), "the end of the stream"); }
        MC_CHECK(I(item) == 7, "the item has changed");
      } else {
        for (int k = 0; k < 3; ++k) { auto u = r->TryRead(); MC_CHECK(u.close_status() && *u.close_status() == st && !u.item(), "the end of the stream"); }
      }
      r->SubscribeOnce([&] { ++calls; });
      MC_CHECK(calls == 2, "a callback after the end of the stream");
      auto again = r2->TryRead();
      MC_CHECK(again.close_status() && *again.close_status() == st, "the end of the other stream");
    });
    // A chain: the consumer of one sets the next.
    for (char k : std::string("ef2")) mc::Register("chain" + N("[executor=%c]", k) + tag, [=] {
      auto [f0, w0] = MakeFuture(Q(ty));
      auto [f1, w1] = MakeFuture(Q(ty));
      auto ex = Exec(k);
      f0->AddConsumer([ex, w = std::move(w1)](absl::StatusOr<TypedValue> v) mutable {
        ex->Schedule([w = std::move(w), v = std::move(v)]() mutable { std::move(w).SetValue(std::move(v)); });
      });
      ex.reset();
      auto s = std::make_shared<Seen>();
      FuturePtr f = f1;
      mc::Spawn([=] { f->AddConsumer(Consumer(s, 0, end)); }, "consumer");
      Writer wr{std::make_unique<FutureWriter>(std::move(w0))};
      wr.End(end, ty);
      mc::Quiesce();
      AllRan(*s, 1);
      CheckPeek(f, end);
    }, 3);
  }
  // A reader destroyed while its callback waits.
  for (char end : kEnds) mc::Register("reader-gone" + N("[end=%c]", end), [=] {
    auto [f, w] = MakeFuture(Q(kInt));
    auto r = std::make_shared<StreamReaderPtr>(kp::StreamReaderFromFuture(f));
    auto calls = std::make_shared<std::atomic<int>>(0);
    (*r)->SubscribeOnce([calls] { calls->fetch_add(1); });
    mc::Spawn([r = std::move(r)]() mutable { r->reset(); r.reset(); }, "reader");
    auto wr = std::make_shared<Writer>(Writer{std::make_unique<FutureWriter>(std::move(w))});
    mc::Spawn([=] { wr->End(end, kInt); }, "writer");
    mc::Quiesce();
    MC_CHECK(calls->load() == 1, "a callback is lost");
  }, 4);
  // The writer is moved about among threads; writers swapped.
  mc::Register("swap-writers", [=] {
    auto [f, w] = MakeFuture(Q(kInt));
    auto [g, u] = MakeFuture(Q(kInt));
    std::swap(w, u);
    MC_CHECK(!f->PeekValue() && !g->PeekValue(), "a swap sets a future");
    std::move(w).SetValue(V(1));
    MC_CHECK(!f->PeekValue() && g->PeekValue() && I(**g->PeekValue()) == 1, "the writers after a swap");
    std::move(u).SetValue(V(2));
    MC_CHECK(I(**f->PeekValue()) == 2, "the writers after a swap");
    // A writer that has set its future can take another.
    auto [h, x] = MakeFuture(Q(kInt));
    w = std::move(x);
    MC_CHECK(!h->PeekValue() && I(**g->PeekValue()) == 1, "a spent writer");
    std::move(w).SetValue(V(3));
    MC_CHECK(I(**h->PeekValue()) == 3, "a spent writer");
  });
  mc::Register("uuid", [=] {
    auto [f, w] = MakeFuture(Q(kInt));
    auto [g, u] = MakeFuture(Q(kInt));
    MC_CHECK(f->uuid() == f->uuid() && f->uuid() != g->uuid(), "uuid");
  });
};
