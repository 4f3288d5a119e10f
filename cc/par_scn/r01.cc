// R01: a stream delivers exactly what was written, to every reader.
#include "common.h"
using namespace scn;

namespace {
absl::Status St(int k) { return k == 0 ? absl::OkStatus() : k == 1 ? absl::InternalError("boom") : absl::CancelledError("orphaned"); }

// How a writer ends its stream. 0 Close(ok) 1 Close(error) 2 destroyed 3 TryClose(ok) 4 TryClose(error)
absl::Status End(StreamWriterPtr w, int how) {
  switch (how) {
    case 0: std::move(*w).Close(); break;
    case 1: std::move(*w).Close(St(1)); break;
    case 3: w->TryClose(absl::OkStatus()); break;
    case 4: w->TryClose(St(1)); break;
  }
  w.reset();
  return St(how == 2 ? 2 : how == 1 || how == 4 ? 1 : 0);
}
void Put(StreamWriter* w, int64_t i, Ty t, bool attempt) {
  if (attempt) MC_CHECK(w->TryWrite(V(i, t).AsRef()), "TryWrite failed on a stream that is open and read");
  else w->Write(V(i, t).AsRef());
}
std::vector<int64_t> Upto(int n) { std::vector<int64_t> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
}  // namespace

SCENARIOS {
  // One writer and readers that subscribe. Readers start before, during and
  // after the writing; at the end they hold exactly the written items.
  for (int n = 0; n <= 4; ++n) for (int cap = 0; cap <= 2; ++cap) for (int how = 0; how < 5; ++how) for (int rd = 1; rd <= 2; ++rd) {
    if (n == 4 && rd == 2 && how > 0) continue;
    mc::Register(N("write[n=%d,cap=%d,end=%d,readers=%d]", n, cap, how, rd), [=] {
      Ty t = kBig;
      auto [s, w] = kp::MakeStream(Q(t), cap);
      std::vector<std::shared_ptr<Collector>> c(rd);
      for (int k = 0; k < rd; ++k) {
        auto* out = &c[k];
        mc::Spawn([out, s = s] { *out = Collector::Start(s); }, "reader");
      }
      mc::Spawn([w = std::move(w), n, how, t]() mutable {
        for (int i = 0; i < n; ++i) Put(w.get(), i, t, i % 2);
        End(std::move(w), how);
      }, "writer");
      mc::Quiesce();
      for (auto& x : c) x->Expect(Upto(n), St(how == 2 ? 2 : how == 1 || how == 4 ? 1 : 0), "a reader");
      ExpectAll(s, Upto(n), c[0]->status(), "a later reader");
      s.reset();
      for (auto& x : c) x->CheckRefs();
    }, n <= 2 ? 4 : 3);
  }
  // More items than any chunk holds, and every value type, in one thread and in two.
  for (int t = 0; t < 3; ++t) for (int cap : {0, 1, 3, 16, 70}) {
    mc::Register(N("chunks[type=%d,cap=%d]", t, cap), [=] {
      int n = t == kInt ? 140 : t == kText ? 40 : 9;
      int lead = mc::Choose(4);            // read after this share of the writing
      auto [s, w] = kp::MakeStream(Q((Ty)t), cap);
      auto early = Collector::Start(s);
      auto reader = s->MakeReader();
      std::vector<TypedRef> refs;
      for (int i = 0; i < n; ++i) {
        Put(w.get(), i, (Ty)t, i % 3 == 0);
        if (lead && i % lead == 0) {
          for (;;) { auto r = reader->TryRead(); if (!r.item()) { MC_CHECK(r.empty(), "an open stream ended"); break; } refs.push_back(*r.item()); }
          MC_CHECK((int)refs.size() == i + 1, "what was written cannot be read at once");
        }
      }
      std::move(*w).Close();
      for (;;) { auto r = reader->TryRead(); if (!r.item()) { MC_CHECK(r.close_status() && r.close_status()->ok(), "end"); break; } refs.push_back(*r.item()); }
      early->Expect(Upto(n), absl::OkStatus(), "a subscribed reader");
      ExpectAll(s, Upto(n), absl::OkStatus(), "a later reader");
      s.reset(); w.reset();
      MC_CHECK((int)refs.size() == n, "number of items");
      for (int i = 0; i < n; ++i) MC_CHECK(I(refs[i]) == i, "an item that was read changed while its reader lives");
    });
  }
  // A reader that polls next to a writer sees prefixes that only grow.
  for (int cap = 0; cap <= 2; ++cap) for (int how = 0; how < 3; ++how) {
    mc::Register(N("poll[cap=%d,end=%d]", cap, how), [=] {
      auto [s, w] = kp::MakeStream(Q(kBig), cap);
      mc::Spawn([s = s, how] {
        auto r = s->MakeReader();
        int64_t seen = 0;
        bool closed = false;
        for (int k = 0; k < 6; ++k) {
          auto t = r->TryRead();
          if (t.item()) { MC_CHECK(!closed && I(*t.item()) == seen, "the items are not read in the order of writing"); ++seen; }
          else if (t.close_status()) { MC_CHECK(seen == 3, "the end is read before the last item"); MC_CHECK(*t.close_status() == St(how), "status"); closed = true; }
          else MC_CHECK(!closed, "a closed stream is open again");
        }
      }, "reader");
      mc::Spawn([w = std::move(w), how]() mutable {
        for (int i = 0; i < 3; ++i) Put(w.get(), i, kBig, false);
        End(std::move(w), how);
      }, "writer");
      mc::Quiesce();
    }, 4);
  }
  // A subscription is served exactly once, by the next change and not before.
  for (int how = 0; how < 4; ++how) {   // what changes: 0 a write 1 close 2 writer destroyed 3 had changed before
    mc::Register(N("subscribe[change=%d]", how), [=] {
      auto [s, w] = kp::MakeStream(Q(kText), 0);
      struct X { std::atomic<int> calls{0}; std::atomic<bool> started{false}; absl::Notification note; };
      auto x = std::make_shared<X>();
      if (how == 3) w->Write(V(0, kText).AsRef());
      std::shared_ptr<kp::StreamReader> r = s->MakeReader();
      mc::Spawn([r, x, how] {
        r->SubscribeOnce([x, how] {
          MC_CHECK(how == 3 || x->started.load(), "a callback was invoked before anything changed");
          MC_CHECK(x->calls.fetch_add(1) == 0, "a callback was invoked twice");
          x->note.Notify();
        });
        x->note.WaitForNotification();
        auto t = r->TryRead();
        MC_CHECK(!t.empty(), "a callback was invoked but there is nothing to read");
        MC_CHECK((how == 0 || how == 3) == (t.item() != nullptr), "what is read after the callback");
      }, "reader");
      mc::Spawn([w = std::move(w), x, how]() mutable {
        x->started = true;
        if (how == 0) { w->Write(V(0, kText).AsRef()); w->Write(V(1, kText).AsRef()); }
        if (how == 1) std::move(*w).Close();
        w.reset();
      }, "writer");
      mc::Quiesce();
      MC_CHECK(x->calls.load() == 1, "the number of calls of a callback");
    }, 5);
  }
  // Several subscriptions of several readers, taken at different times.
  mc::Register("subscribe-many", [] {
    auto [s, w] = kp::MakeStream(Q(kInt), 1);
    auto calls = std::make_shared<std::array<std::atomic<int>, 4>>();
    std::vector<std::shared_ptr<kp::StreamReader>> rs;
    for (int k = 0; k < 2; ++k) rs.push_back(s->MakeReader());
    for (int k = 0; k < 2; ++k) mc::Spawn([r = rs[k], calls, k] {
      for (int j = 0; j < 2; ++j) {
        r->SubscribeOnce([calls, k, j] { MC_CHECK((*calls)[2 * k + j].fetch_add(1) == 0, "twice"); });
      }
    }, "reader");
    mc::Spawn([w = std::move(w)]() mutable { w->Write(V(7).AsRef()); w->Write(V(8).AsRef()); std::move(*w).Close(); }, "writer");
    mc::Quiesce();
    for (auto& c : *calls) MC_CHECK(c.load() == 1, "a subscription was not served");
    for (auto& r : rs) { auto t = r->TryRead(); MC_CHECK(t.item() && I(*t.item()) == 7, "the first item"); }
  }, 3);
  // Callbacks may use the stream and its writer: nothing is locked around them.
  for (int cap = 0; cap <= 1; ++cap) mc::Register(N("reenter[cap=%d]", cap), [=] {
    auto [s, w] = kp::MakeStream(Q(kText), cap);
    std::shared_ptr<StreamWriter> writer = std::move(w);
    std::shared_ptr<kp::StreamReader> r = s->MakeReader();
    StreamPtr stream = s;
    auto done = std::make_shared<int>(0);
    r->SubscribeOnce([=] {
      writer->Write(V(1, kText).AsRef());
      r->SubscribeOnce([=] {   // something is there: at once
        ++*done;
        auto a = r->TryRead(), b = r->TryRead(), c = r->TryRead();
        MC_CHECK(a.item() && I(*a.item()) == 0 && b.item() && I(*b.item()) == 1 && c.empty(), "what a callback reads");
        r->SubscribeOnce([=] { ++*done; auto e = r->TryRead(); MC_CHECK(e.close_status() && e.close_status()->ok(), "the end"); });
        MC_CHECK(*done == 1, "a callback was invoked too early");
        auto late = stream->MakeReader();
        MC_CHECK(late->TryRead().item() != nullptr, "a new reader in a callback");
        std::move(*writer).Close();
      });
    });
    writer->Write(V(0, kText).AsRef());
    MC_CHECK(*done == 2, "callbacks that were not invoked");
    ExpectAll(stream, {0, 1}, absl::OkStatus(), "later");
  });
  // Writers in two threads, and a third that closes: every write that was
  // accepted is read, no other, in one order for all readers.
  for (int close = 0; close < 3; ++close) for (int cap = 0; cap <= 1; ++cap) mc::Register(N("writers[close=%d,cap=%d]", close, cap), [=] {
    auto [s, w0] = kp::MakeStream(Q(kBig), cap);
    std::shared_ptr<StreamWriter> w = std::move(w0);
    struct X { Flag closed; std::vector<int64_t> ok[2]; Flag stopped; };
    auto x = std::make_shared<X>();
    auto c = Collector::Start(s);
    for (int k = 0; k < 2; ++k) mc::Spawn([w, x, k] {
      bool failed = false;
      for (int i = 0; i < 2; ++i) {
        bool closed = x->closed.Get();
        bool ok = w->TryWrite(V(10 * k + i, kBig).AsRef());
        MC_CHECK(!(closed && ok), "a write was accepted after the stream was closed");
        MC_CHECK(!(failed && ok), "a write was accepted after another was refused");
        failed |= !ok;
        if (ok) x->ok[k].push_back(10 * k + i);
      }
    }, "writer");
    if (close) mc::Spawn([w, x, close] {
      w->TryClose(close == 1 ? absl::OkStatus() : St(1));
      x->closed.Set();
      MC_CHECK(w->Orphaned(), "a closed stream can still be written");
      w->TryClose(absl::InternalError("again"));
    }, "closer");
    w.reset();
    mc::Quiesce();
    std::vector<int64_t> a, b;
    for (int64_t v : c->items()) (v < 10 ? a : b).push_back(v);
    MC_CHECK(a == x->ok[0] && b == x->ok[1], "what is read " + Show(c->items()) + " differs from what was accepted " + Show(x->ok[0]) + " " + Show(x->ok[1]));
    MC_CHECK(c->status() == (close == 0 ? St(2) : close == 1 ? absl::OkStatus() : St(1)), "the close status");
    ExpectAll(s, c->items(), c->status(), "a later reader");
  }, 3);
  // Two threads that close: one status wins and stays.
  mc::Register("closers", [] {
    auto [s, w0] = kp::MakeStream(Q(kInt), 0);
    std::shared_ptr<StreamWriter> w = std::move(w0);
    auto c = Collector::Start(s);
    for (int k = 0; k < 2; ++k) mc::Spawn([w, k] { w->TryClose(absl::InternalError(k ? "one" : "zero")); }, "closer");
    w.reset();
    mc::Quiesce();
    MC_CHECK(c->items().empty() && c->status().code() == absl::StatusCode::kInternal, "the close status " + Str(c->status()));
    ExpectAll(s, {}, c->status(), "a later reader");
  }, 4);
  // Orphaned(): false while the stream is open and somebody may read it; once
  // it is true nothing that is written reaches a reader.
  for (int keep = 0; keep < 3; ++keep) mc::Register(N("orphaned[keep=%d]", keep), [=] {
    auto [s, w0] = kp::MakeStream(Q(kText), 1);
    std::shared_ptr<StreamWriter> w = std::move(w0);
    struct X { Flag gone; };
    auto x = std::make_shared<X>();
    std::shared_ptr<kp::StreamReader> r;
    if (keep == 1) r = s->MakeReader();
    mc::Spawn([s = std::move(s), x, keep]() mutable {
      auto c = s->MakeReader();
      (void)c->TryRead();
      if (keep == 2) c->SubscribeOnce([] {});
      s.reset();
      (void)c->TryRead();
      c.reset();
      x->gone.Set();
    }, "owner");
    mc::Spawn([w, x, keep] {
      bool was = false;
      for (int i = 0; i < 3; ++i) {
        bool gone = x->gone.Get();
        bool o = w->Orphaned();
        MC_CHECK(!(was && !o), "an orphaned stream has a reader again");
        if (keep == 1) MC_CHECK(!o, "a stream with a reader counts as orphaned");
        if (keep == 0 && gone) MC_CHECK(o, "a stream without readers does not count as orphaned");
        bool ok = w->TryWrite(V(i, kText).AsRef());
        MC_CHECK(!(o && ok), "a write was accepted though nobody can read it");
        if (keep == 1) MC_CHECK(ok, "a write was refused though somebody reads");
        w->Write(V(10 + i, kText).AsRef());   // harmless
        was = o;
      }
    }, "writer");
    w.reset();
    mc::Quiesce();
    if (keep == 1) {
      auto seen = 0;
      for (int64_t want : {0, 10, 1, 11, 2, 12}) { auto t = r->TryRead(); MC_CHECK(t.item() && I(*t.item()) == want, "items of the last reader"); ++seen; }
      auto t = r->TryRead();
      MC_CHECK(t.close_status() && *t.close_status() == St(2), "the end");
    }
  }, 4);
  // ... also when it is true because another thread closes the stream.
  mc::Register("orphaned-by-close", [] {
    auto [s, w0] = kp::MakeStream(Q(kInt), 1);
    std::shared_ptr<StreamWriter> w = std::move(w0);
    mc::Spawn([w] { w->TryClose(St(1)); }, "closer");
    mc::Spawn([w] {
      for (int i = 0; i < 2; ++i) {
        bool o = w->Orphaned();
        bool ok = w->TryWrite(V(i).AsRef());
        MC_CHECK(!(o && ok), "the writer said that further writes reach no reader, and then a write was accepted");
      }
    }, "writer");
    w.reset();
    mc::Quiesce();
    MC_CHECK(ReadAll(s).status == St(1), "the close status");
  }, 4);
  // Readers, stream and writer are destroyed in any order, next to writes.
  for (int sub = 0; sub < 2; ++sub) for (int how = 0; how < 3; ++how) mc::Register(N("destroy[subscribed=%d,end=%d]", sub, how), [=] {
    auto [s, w] = kp::MakeStream(Q(kBig), 0);
    auto c = std::make_shared<std::atomic<int>>(0);
    mc::Spawn([s = std::move(s), c, sub]() mutable {
      auto r = s->MakeReader();
      s.reset();
      auto t = r->TryRead();
      if (sub) r->SubscribeOnce([c, keep = V(5, kBig)] { MC_CHECK(I(keep) == 5 && c->fetch_add(1) == 0, "twice"); });
      if (t.item()) MC_CHECK(I(*t.item()) == 0, "the first item");
      r.reset();
    }, "reader");
    mc::Spawn([w = std::move(w), how]() mutable {
      for (int i = 0; i < 2; ++i) w->Write(V(i, kBig).AsRef());
      End(std::move(w), how);
    }, "writer");
    mc::Quiesce();
    MC_CHECK(c->load() <= 1, "a callback was invoked twice");
  }, 4);
  // A callback that owns its reader: the cycle ends with the stream.
  for (int how = 0; how < 3; ++how) mc::Register(N("own[end=%d]", how), [=] {
    auto [s, w] = kp::MakeStream(Q(kText), 0);
    struct Loop {
      static void Run(StreamReaderPtr r, std::shared_ptr<std::vector<int64_t>> out, std::shared_ptr<std::optional<absl::Status>> st) {
        for (;;) {
          auto t = r->TryRead();
          if (t.item()) { out->push_back(I(*t.item())); continue; }
          if (t.close_status()) { *st = *t.close_status(); return; }
          break;
        }
        auto* p = r.get();
        p->SubscribeOnce([r = std::move(r), out, st]() mutable { Run(std::move(r), out, st); });
      }
    };
    auto out = std::make_shared<std::vector<int64_t>>();
    auto st = std::make_shared<std::optional<absl::Status>>();
    mc::Spawn([s = std::move(s), out, st]() mutable { auto r = s->MakeReader(); s.reset(); Loop::Run(std::move(r), out, st); }, "reader");
    mc::Spawn([w = std::move(w), how]() mutable {
      for (int i = 0; i < 2; ++i) w->Write(V(i, kText).AsRef());
      End(std::move(w), how);
    }, "writer");
    mc::Quiesce();
    // The stream is only held by the reader: it may be gone before the writes.
    MC_CHECK(*out == Upto(2) && st->has_value() && **st == St(how), "read " + Show(*out));
  }, 4);
  // Two streams are distinct; the type is kept.
  mc::Register("identity", [] {
    auto a = kp::MakeStream(Q(kInt)), b = kp::MakeStream(Q(kText), 4);
    MC_CHECK(a.first->uuid() != b.first->uuid(), "two streams have one identity");
    MC_CHECK(a.first->value_qtype() == Q(kInt) && a.second->value_qtype() == Q(kInt), "type");
    MC_CHECK(b.first->value_qtype() == Q(kText) && b.second->value_qtype() == Q(kText), "type");
    a.second->Write(V(1).AsRef());
    MC_CHECK(b.first->MakeReader()->TryRead().empty(), "a value written to another stream");
  });
};
