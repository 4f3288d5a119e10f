// R02: chaining and interleaving of streams.
#include "common.h"
#include "koladata/functor/parallel/stream_composition.h"
using namespace scn;

namespace {
absl::Status Err(int k) { return absl::InternalError("error " + std::to_string(k)); }

// An input: items k*10, k*10+1, ... written by its own thread, then closed
// with an error (k), or with OK, or its writer is destroyed.
struct Input { int n; int end; };   // end: 0 ok 1 error 2 orphaned
absl::Status EndStatus(int k, int end) { return end == 0 ? absl::OkStatus() : end == 1 ? Err(k) : absl::CancelledError("orphaned"); }
void Feed(StreamWriterPtr w, int k, Input in, Ty t) {
  for (int i = 0; i < in.n; ++i) w->Write(V(10 * k + i, t).AsRef());
  if (in.end < 2) std::move(*w).Close(EndStatus(k, in.end));
  w.reset();
}
std::pair<StreamPtr, std::function<void()>> Later(int k, Input in, Ty t) {
  auto [s, w] = kp::MakeStream(Q(t), 1);
  auto* p = w.release();
  return {std::move(s), [=] { Feed(StreamWriterPtr(p), k, in, t); }};
}
// What a chain of the inputs must be.
std::pair<std::vector<int64_t>, absl::Status> Concat(const std::vector<Input>& in) {
  std::vector<int64_t> v;
  for (size_t k = 0; k < in.size(); ++k) {
    for (int i = 0; i < in[k].n; ++i) v.push_back(10 * k + i);
    if (in[k].end) return {v, EndStatus(k, in[k].end)};
  }
  return {v, absl::OkStatus()};
}
// The part of `all` that came from input k.
std::vector<int64_t> Of(const std::vector<int64_t>& all, int k) {
  std::vector<int64_t> v;
  for (int64_t x : all) if (x / 10 == k) v.push_back(x);
  return v;
}
std::vector<int64_t> Full(int k, int n) { std::vector<int64_t> v; for (int i = 0; i < n; ++i) v.push_back(10 * k + i); return v; }

// An interleaving: the items of each input in their order; complete and OK if
// no input failed, else the error of one input (and that input complete, the
// others cut anywhere).
void CheckMerge(const Collector& c, const std::vector<Input>& in) {
  size_t total = 0;
  for (size_t k = 0; k < in.size(); ++k) {
    auto part = Of(c.items(), k);
    total += part.size();
    MC_CHECK(Prefix(part, Full(k, in[k].n)), "the items of an input are lost, repeated or out of order: " + Show(c.items()));
  }
  MC_CHECK(total == c.items().size(), "items from nowhere: " + Show(c.items()));
  bool fails = false, match = false;
  for (size_t k = 0; k < in.size(); ++k) if (in[k].end) {
    fails = true;
    if (c.status() == EndStatus(k, in[k].end) && Of(c.items(), k) == Full(k, in[k].n)) match = true;
  }
  if (!fails) {
    MC_CHECK(c.status().ok(), "an interleaving of streams without errors ended with " + Str(c.status()));
    for (size_t k = 0; k < in.size(); ++k) MC_CHECK(Of(c.items(), k) == Full(k, in[k].n), "an interleaving ended before its inputs: " + Show(c.items()));
  } else {
    MC_CHECK(!c.status().ok(), "the error of an input is lost");
    MC_CHECK(match, "the interleaving ended with " + Str(c.status()) + " after " + Show(c.items()));
  }
}
const std::vector<std::vector<Input>> kInputs = {
    {}, {{0, 0}}, {{2, 0}}, {{1, 1}}, {{1, 2}}, {{0, 1}},
    {{2, 0}, {1, 0}}, {{1, 0}, {2, 0}}, {{0, 0}, {1, 0}}, {{1, 1}, {1, 0}}, {{1, 0}, {1, 1}}, {{0, 2}, {1, 0}}, {{1, 0}, {0, 2}}, {{0, 1}, {0, 1}}, {{1, 1}, {1, 2}},
    {{1, 0}, {1, 0}, {1, 0}}, {{1, 0}, {0, 1}, {1, 0}}, {{0, 0}, {0, 0}, {1, 0}}, {{1, 0}, {0, 0}, {0, 1}},
};
}  // namespace

SCENARIOS {
  for (int chain = 0; chain < 2; ++chain) {
    const char* op = chain ? "chain" : "interleave";
    // Inputs written while another thread adds them; all are read at the end.
    for (size_t c = 0; c < kInputs.size(); ++c) for (int keep = 0; keep < 2; ++keep) {
      if (keep && kInputs[c].size() > 2) continue;
      mc::Register(std::string(op) + N("[case=%d,keep=%d]", c, keep), [=] {
        const auto& in = kInputs[c];
        auto [s, w] = kp::MakeStream(Q(kText), 0);
        auto out = Collector::Start(s);
        std::vector<StreamPtr> streams;
        for (size_t k = 0; k < in.size(); ++k) {
          auto [st, feed] = Later(k, in[k], kText);
          streams.push_back(std::move(st));
          mc::Spawn([feed = feed] { feed(); }, "input");
        }
        mc::Spawn([w = std::move(w), streams = std::move(streams), chain, keep]() mutable {
          auto go = [&](auto comp) {
            for (auto& x : streams) { comp.Add(x); if (!keep) x.reset(); }
          };
          if (chain) go(kp::StreamChain(std::move(w))); else go(kp::StreamInterleave(std::move(w)));
        }, "adder");
        s.reset();
        mc::Quiesce();
        if (chain) { auto [items, st] = Concat(in); out->Expect(items, st, "chain"); }
        else CheckMerge(*out, in);
      }, kInputs[c].size() < 2 ? 4 : kInputs[c].size() == 2 ? 3 : 2);
    }
    // Two threads add inputs; the order is that of adding.
    mc::Register(std::string(op) + "-two-adders", [=] {
      auto [s, w] = kp::MakeStream(Q(kInt), 1);
      auto out = Collector::Start(s);
      auto go = [&](auto comp) {
        for (int k = 0; k < 2; ++k) {
          auto [st, feed] = Later(k, {1, 0}, kInt);
          mc::Spawn([comp, st = std::move(st), feed = feed]() mutable { comp->Add(st); st.reset(); feed(); comp->AddItem(V(110).AsRef()); }, "adder");
        }
      };
      if (chain) go(std::make_shared<kp::StreamChain>(std::move(w))); else go(std::make_shared<kp::StreamInterleave>(std::move(w)));
      mc::Quiesce();
      auto v = out->items();
      MC_CHECK(out->status().ok() && v.size() == 4 && Of(v, 0).size() == 1 && Of(v, 1).size() == 1 && Of(v, 11).size() == 2, "two adders: " + Show(v) + Str(out->status()));
    }, 3);
    // Items and errors that are added directly, between streams.
    for (int p = 0; p < 6; ++p) mc::Register(std::string(op) + N("-items[%d]", p), [=] {
      // p: position of the error among item, stream, item, stream, item; 5: none
      auto [s, w] = kp::MakeStream(Q(kText), 0);
      auto out = Collector::Start(s);
      auto [s1, f1] = Later(1, {1, 0}, kText);
      auto [s2, f2] = Later(2, {1, 0}, kText);
      mc::Spawn([f1 = f1] { f1(); }, "input");
      mc::Spawn([f2 = f2] { f2(); }, "input");
      mc::Spawn([w = std::move(w), s1 = s1, s2 = s2, p, chain]() mutable {
        auto go = [&](auto comp) {
          for (int i = 0; i < 5; ++i) {
            if (i == p) comp.AddError(Err(i));
            if (i == 1) comp.Add(s1);
            else if (i == 3) comp.Add(s2);
            else comp.AddItem(V(30 + i, kText).AsRef());
          }
        };
        if (chain) go(kp::StreamChain(std::move(w))); else go(kp::StreamInterleave(std::move(w)));
      }, "adder");
      s.reset(); s1.reset(); s2.reset();
      mc::Quiesce();
      std::vector<int64_t> all = {30, 10, 32, 20, 34};
      if (chain) { all.resize(std::min(p, 5)); out->Expect(all, p < 5 ? Err(p) : absl::OkStatus(), "chain"); return; }
      auto v = out->items();
      MC_CHECK(out->status() == (p < 5 ? Err(p) : absl::OkStatus()), "status " + Str(out->status()));
      std::vector<int64_t> direct = Of(v, 3), want;
      for (int i = 0; i < 5; i += 2) if (i < p) want.push_back(30 + i);
      MC_CHECK(direct == want, "items added directly " + Show(v));
      for (int k : {1, 2}) MC_CHECK(Of(v, k).size() <= 1 && (p < 5 || Of(v, k).size() == 1), "items " + Show(v));
      MC_CHECK(v.size() == direct.size() + Of(v, 1).size() + Of(v, 2).size(), "items " + Show(v));
    }, 2);
    // One stream added twice, and an empty composition.
    mc::Register(std::string(op) + "-same-twice", [=] {
      auto [s, w] = kp::MakeStream(Q(kInt), 0);
      auto out = Collector::Start(s);
      auto [st, feed] = Later(1, {2, 0}, kInt);
      mc::Spawn([feed = feed] { feed(); }, "input");
      mc::Spawn([w = std::move(w), st = st, chain]() mutable {
        auto go = [&](auto comp) { comp.Add(st); comp.Add(st); };
        if (chain) go(kp::StreamChain(std::move(w))); else go(kp::StreamInterleave(std::move(w)));
      }, "adder");
      st.reset();
      mc::Quiesce();
      auto v = out->items();
      MC_CHECK(out->status().ok(), "status");
      if (chain) MC_CHECK((v == std::vector<int64_t>{10, 11, 10, 11}), "a chain of a stream with itself: " + Show(v));
      else { std::sort(v.begin(), v.end()); MC_CHECK((v == std::vector<int64_t>{10, 10, 11, 11}), "an interleaving of a stream with itself: " + Show(v)); }
    }, 3);
    // The helper goes while inputs are open: the output stays open until the
    // last of them ends, and closes then.
    mc::Register(std::string(op) + "-open", [=] {
      auto [s, w] = kp::MakeStream(Q(kInt), 0);
      auto [s1, w1] = kp::MakeStream(Q(kInt), 0);
      auto r = s->MakeReader();
      {
        std::optional<kp::StreamChain> c; std::optional<kp::StreamInterleave> i;
        if (chain) c.emplace(std::move(w)); else i.emplace(std::move(w));
        if (chain) c->Add(s1); else i->Add(s1);
        MC_CHECK(!(chain ? c->Orphaned() : i->Orphaned()), "orphaned too early");
        MC_CHECK(r->TryRead().empty(), "closed too early");
        w1->Write(V(1).AsRef());
        auto t = r->TryRead();
        MC_CHECK(t.item() && I(*t.item()) == 1, "an item is not passed on at once");
      }
      MC_CHECK(r->TryRead().empty(), "closed while an input is open");
      w1->Write(V(2).AsRef());
      auto t = r->TryRead();
      MC_CHECK(t.item() && I(*t.item()) == 2, "an item is not passed on after the helper has gone");
      std::move(*w1).Close();
      auto e = r->TryRead();
      MC_CHECK(e.close_status() && e.close_status()->ok(), "not closed when the last input ended");
    });
    mc::Register(std::string(op) + "-held", [=] {
      // All inputs have ended but more may be added: open.
      auto [s, w] = kp::MakeStream(Q(kInt), 0);
      auto r = s->MakeReader();
      auto go = [&](auto comp) {
        { auto [s1, f] = Later(0, {1, 0}, kInt); f(); comp.Add(s1); }
        auto t = r->TryRead();
        MC_CHECK(t.item() && I(*t.item()) == 0, "first item");
        MC_CHECK(r->TryRead().empty(), "closed though more may be added");
        comp.AddItem(V(5).AsRef());
        t = r->TryRead();
        MC_CHECK(t.item() && I(*t.item()) == 5, "an item added after an input ended");
        auto moved = std::move(comp);
        moved.AddItem(V(6).AsRef());
      };
      if (chain) go(kp::StreamChain(std::move(w))); else go(kp::StreamInterleave(std::move(w)));
      auto t = r->TryRead();
      MC_CHECK(t.item() && I(*t.item()) == 6, "an item added after a move");
      auto e = r->TryRead();
      MC_CHECK(e.close_status() && e.close_status()->ok(), "not closed with the helper");
    });
    // The reader of the output goes away.
    for (int sub = 0; sub < 2; ++sub) mc::Register(std::string(op) + N("-abandon[%d]", sub), [=] {
      auto [s, w] = kp::MakeStream(Q(kText), 0);
      auto gone = std::make_shared<Flag>(), s1_done = std::make_shared<Flag>(), s2_done = std::make_shared<Flag>();
      auto [s1, f1] = Later(1, {2, 0}, kText);
      auto [s2, f2] = Later(2, {1, 1}, kText);
      mc::Spawn([f1 = f1, s1_done] { f1(); s1_done->Set(); }, "input");
      mc::Spawn([f2 = f2, s2_done] { f2(); s2_done->Set(); }, "input");
      mc::Spawn([s = std::move(s), sub, gone]() mutable {
        auto r = s->MakeReader();
        s.reset();
        (void)r->TryRead();
        if (sub) r->SubscribeOnce([] {});
        r.reset();
        gone->Set();
      }, "reader");
      mc::Spawn([w = std::move(w), s1 = std::move(s1), s2 = std::move(s2), chain, gone, s1_done, s2_done, sub]() mutable {
        auto go = [&](auto comp) {
          comp.Add(s1); s1.reset();
          comp.Add(s2); s2.reset();
          // An input in the middle of a write may keep the stream a little longer.
          if (gone->Get() && !sub && s1_done->Get() && s2_done->Get()) MC_CHECK(comp.Orphaned(), "nobody reads, but the composition is not orphaned");
        };
        if (chain) go(kp::StreamChain(std::move(w))); else go(kp::StreamInterleave(std::move(w)));
      }, "adder");
      mc::Quiesce();
    }, 2);
    // After an error nothing more is read, and what is added later is ignored.
    mc::Register(std::string(op) + "-after-error", [=] {
      auto [s, w] = kp::MakeStream(Q(kInt), 0);
      auto go = [&](auto comp) {
        comp.AddItem(V(1).AsRef());
        comp.AddError(Err(1));
        MC_CHECK(comp.Orphaned(), "a composition that failed takes more");
        comp.AddItem(V(2).AsRef());
        comp.AddError(Err(2));
        auto [s1, f] = Later(0, {1, 0}, kInt);
        comp.Add(s1);
        f();
        auto [s2, f2] = Later(0, {1, 1}, kInt);
        f2();
        comp.Add(s2);
      };
      if (chain) go(kp::StreamChain(std::move(w))); else go(kp::StreamInterleave(std::move(w)));
      ExpectAll(s, {1}, Err(1), op);
    });
    // The reader of the output adds to the composition from its callback.
    mc::Register(std::string(op) + "-feedback", [=] {
      auto [s, w] = kp::MakeStream(Q(kInt), 0);
      auto go = [&](auto comp) {
        struct Loop {
          static void Run(std::shared_ptr<StreamReader> r, decltype(comp) c, std::shared_ptr<std::vector<int64_t>> out) {
            for (;;) {
              auto t = r->TryRead();
              if (t.item()) {
                int64_t v = I(*t.item());
                out->push_back(v);
                if (v < 3) { auto [s1, f] = Later(0, {0, 0}, kInt); f(); c->Add(s1); c->AddItem(V(v + 1).AsRef()); }
                if (v == 3) { c.reset(); }
                continue;
              }
              if (t.close_status()) { MC_CHECK(t.close_status()->ok(), "status"); out->push_back(-1); return; }
              break;
            }
            auto* p = r.get();
            p->SubscribeOnce([r, c, out]() mutable { Run(std::move(r), std::move(c), out); });
          }
        };
        auto out = std::make_shared<std::vector<int64_t>>();
        auto [s1, f] = Later(0, {1, 0}, kInt);
        std::shared_ptr<StreamReader> r = s->MakeReader();
        s.reset();
        Loop::Run(std::move(r), comp, out);
        comp->Add(s1);
        comp.reset();
        mc::Spawn([f = f] { f(); }, "input");
        mc::Quiesce();
        MC_CHECK((*out == std::vector<int64_t>{0, 1, 2, 3, -1}), "a composition that feeds itself: " + Show(*out));
      };
      if (chain) go(std::make_shared<kp::StreamChain>(std::move(w))); else go(std::make_shared<kp::StreamInterleave>(std::move(w)));
    });
  }
};
