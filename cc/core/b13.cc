// B13: ids are new, uuids are functions of what they are made of, and both survive encoding.
#include <algorithm>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "bag.h"
#include "arolla/dense_array/edge.h"
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "koladata/internal/op_utils/agg_uuid.h"
#include "koladata/internal/op_utils/base62.h"
#include "koladata/internal/op_utils/itemid.h"
#include "koladata/internal/op_utils/new_ids_like.h"
#include "koladata/internal/uuid_object.h"
#include "koladata/internal/uuid_schemas.h"
namespace drv {
namespace {
using kd::internal::AllocationIdSet;
using kd::internal::UuidType;
using Raw = std::pair<uint64_t, uint64_t>;
Raw RawOf(ObjectId o) { return {absl::Uint128High64(o.ToRawInt128()), absl::Uint128Low64(o.ToRawInt128())}; }
ObjectId Id(const DataItem& x) { return x.value<ObjectId>(); }
bool IsId(const DataItem& x) { return x.holds_value<ObjectId>(); }

// Threads that run one call at a time, in the order told.
struct Worker {
  std::mutex m; std::condition_variable cv; std::function<void()> job; bool stop = false; std::thread t;
  Worker() : t([this] { std::unique_lock<std::mutex> l(m); for (;;) { cv.wait(l, [&] { return job || stop; }); if (!job) return; job(); job = nullptr; cv.notify_all(); } }) {}
  void Do(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = std::move(f); cv.notify_all(); cv.wait(l, [&] { return !job; }); }
  ~Worker() { { std::lock_guard<std::mutex> l(m); stop = true; cv.notify_all(); } t.join(); }
};

enum Kind { kEntity, kList_, kDict_, kSchema_ };
struct How { std::string name; size_t size; Kind kind; std::function<AllocationId()> f; };
std::vector<How> Hows() {
  using namespace kd::internal;
  std::vector<How> r;
  for (size_t n : {1, 2, 3, 4, 5, 64, 65, 1000}) r.push_back({"Allocate(" + std::to_string(n) + ")", n, kEntity, [n] { return Allocate(n); }});
  r.push_back({"single object", 1, kEntity, [] { return AllocationId(AllocateSingleObject()); }});
  r.push_back({"single list", 1, kList_, [] { return AllocationId(AllocateSingleList()); }});
  r.push_back({"5 lists", 5, kList_, [] { return AllocateLists(5); }});
  r.push_back({"single dict", 1, kDict_, [] { return AllocationId(AllocateSingleDict()); }});
  r.push_back({"5 dicts", 5, kDict_, [] { return AllocateDicts(5); }});
  r.push_back({"single schema", 1, kSchema_, [] { return AllocationId(AllocateExplicitSchema()); }});
  r.push_back({"5 schemas", 5, kSchema_, [] { return AllocateExplicitSchemas(5); }});
  return r;
}
void CheckKind(ObjectId o, Kind k, const std::string& who, bool uuid = false) {
  Read();
  if (o.IsList() != (k == kList_) || o.IsDict() != (k == kDict_) || o.IsSchema() != (k == kSchema_) || o.IsEntity() != (k == kEntity)) Fail(who + " gives " + Str(O(o)) + ", which is of another kind");
  if (o.IsUuid() != uuid || o.IsAllocated() == uuid) Fail(who + ": IsUuid() of " + Str(O(o)));
  if (k != kSchema_ && (o.IsExplicitSchema() || o.IsImplicitSchema() || o.IsNoFollowSchema())) Fail(who + ": kind of schema of " + Str(O(o)));
}
void CheckAllocation(AllocationId a, size_t size, Kind k, const std::string& who) {
  ++g.reads;
  size_t cap = 1; while (cap < size) cap *= 2;
  if (a.Capacity() != cap) Fail(who + " has capacity " + std::to_string(a.Capacity()));
  if (a.IsSmall() != (cap <= kd::internal::kSmallAllocMaxCapacity)) Fail(who + ": IsSmall()");
  if (a.IsListsAlloc() != (k == kList_) || a.IsDictsAlloc() != (k == kDict_) || a.IsSchemasAlloc() != (k == kSchema_) || a.IsEntitiesAlloc() != (k == kEntity) || a.IsExplicitSchemasAlloc() != (k == kSchema_)) Fail(who + ": kind of the allocation");
  std::set<Raw> seen;
  for (size_t i = 0; i < cap; i = i < 70 || i + 2 >= cap ? i + 1 : cap - 2) {
    ObjectId o = a.ObjectByOffset(i);
    CheckKind(o, k, who);
    if (o.Offset() != (int64_t)i) Fail(who + ": object " + std::to_string(i) + " has offset " + std::to_string(o.Offset()));
    if (!(AllocationId(o) == a) || !a.Contains(o)) Fail(who + " does not contain its object " + std::to_string(i));
    if (!seen.insert(RawOf(o)).second) Fail(who + " has an object twice");
    if (o.IsSmallAlloc() != a.IsSmall()) Fail(who + ": IsSmallAlloc()");
  }
}

Shard Allocations() {
  std::vector<std::string> names;
  auto hows = std::make_shared<std::vector<How>>(Hows());
  for (int t = 0; t < 2; ++t) for (auto& h : *hows) names.push_back("thread " + std::to_string(t) + ": " + h.name);
  names.push_back("thread 0: like the last"); names.push_back("thread 1: like the last");
  return {"allocations", names, 3, [=](const std::vector<int>& h, std::string* st) {
    static std::set<Raw> ever;
    std::unique_ptr<Worker> w[2];
    for (auto& x : w) x = std::make_unique<Worker>();
    std::vector<AllocationId> all; std::vector<std::pair<size_t, Kind>> what;
    const int n = hows->size();
    for (int o : h) {
      AllocationId a; size_t size; Kind k;
      if (o < 2 * n) { auto& x = (*hows)[o % n]; w[o / n]->Do([&] { a = x.f(); }); size = x.size; k = x.kind; }
      else if (all.empty()) continue;
      else { w[o - 2 * n]->Do([&] { a = kd::internal::NewAllocationIdLike(all.back()); }); std::tie(size, k) = what.back(); }
      CheckAllocation(a, size, k, names[o]);
      if (!ever.insert(RawOf(a.ObjectByOffset(0))).second) Fail(names[o] + " gives ids that were given before");
      for (auto& b : all) {
        ++g.reads;
        if (a == b || b.Contains(a.ObjectByOffset(0)) || a.Contains(b.ObjectByOffset(b.Capacity() - 1))) Fail(names[o] + " gives ids of an earlier allocation");
      }
      all.push_back(a); what.push_back({size, k});
    }
    for (auto& [s, k] : what) *st += std::to_string(s) + "/" + std::to_string(k) + ",";
  }};
}

// As many allocations as it takes for the counters to go round.
Shard Many() {
  struct C { std::string name; size_t n; std::function<ObjectId()> f; };
  auto cs = std::make_shared<std::vector<C>>();
  cs->push_back({"2^24 + 9 single objects", (1u << 24) + 9, [] { return kd::internal::AllocateSingleObject(); }});
  for (size_t s : {2, 3, 16, 17, 4096, 1 << 20}) cs->push_back({"many of size " + std::to_string(s), (1u << 16) + 9, [s] { return kd::internal::Allocate(s).ObjectByOffset(0); }});
  std::vector<std::string> names;
  for (auto& c : *cs) names.push_back(c.name);
  return {"many", names, 1, [=](const std::vector<int>& h, std::string* st) {
    for (int o : h) {
      auto& c = (*cs)[o];
      std::vector<Raw> got(2 * c.n);
      Worker a, b;
      a.Do([&] { for (size_t i = 0; i < c.n / 2; ++i) got[i] = RawOf(c.f()); });
      b.Do([&] { for (size_t i = 0; i < c.n; ++i) got[c.n + i] = RawOf(c.f()); });
      a.Do([&] { for (size_t i = c.n / 2; i < c.n; ++i) got[i] = RawOf(c.f()); });
      std::sort(got.begin(), got.end());
      g.reads += got.size();
      if (std::adjacent_find(got.begin(), got.end()) != got.end()) Fail(c.name + ": an id is given twice");
      *st += std::to_string(o) + ",";
    }
  }};
}

Shard Sets() {
  auto a = std::make_shared<std::vector<AllocationId>>();
  for (int i = 0; i < 40; ++i) a->push_back(kd::internal::Allocate(i % 2 ? 64 : 5));
  std::sort(a->begin(), a->end());
  const AllocationId small = kd::internal::Allocate(1), small2 = kd::internal::Allocate(2);
  using Ids = std::vector<AllocationId>;
  auto range = [=](int i, int j, int step = 1) { Ids r; for (int k = i; k < j; k += step) r.push_back((*a)[k]); return r; };
  auto ids = std::make_shared<std::vector<std::pair<std::string, Ids>>>();
  for (int i : {0, 3, 20, 39}) ids->push_back({"insert " + std::to_string(i), range(i, i + 1)});
  ids->push_back({"insert small", {small}});
  ids->push_back({"insert small of two", {small2}});
  const int singles = ids->size();
  auto rev = [](Ids x) { std::reverse(x.begin(), x.end()); return x; };
  auto cat = [](Ids x, Ids y) { x.insert(x.end(), y.begin(), y.end()); return x; };
  ids->push_back({"union nothing", {}}); ids->push_back({"union [20]", range(20, 21)}); ids->push_back({"union 0..5", range(0, 6)}); ids->push_back({"union 10..39", rev(range(10, 40))}); ids->push_back({"union 5..39", range(5, 40)});
  ids->push_back({"union 0,2,..", range(0, 40, 2)}); ids->push_back({"union [small]", {small}}); ids->push_back({"union 0..28, small, 0..28", cat(cat(range(0, 29), {small}), range(0, 29))}); ids->push_back({"union 30..39, 0, small", cat(range(30, 40), {small2, (*a)[0]})});
  ids->push_back({"union the rest", rev(range(0, 40))});
  std::vector<std::string> names;
  for (auto& x : *ids) names.push_back(x.first);
  return {"sets", names, 4, [=](const std::vector<int>& h, std::string* st) {
    AllocationIdSet s;
    std::set<AllocationId> want; bool sm = false;
    for (int o : h) {
      auto& v = (*ids)[o].second;
      if (o < singles) {
        const bool fresh = v[0].IsSmall() ? !sm : !want.count(v[0]);
        if (s.Insert(v[0]) != fresh) Fail("Insert does not tell whether it was new");
      } else s.Insert(AllocationIdSet(absl::MakeConstSpan(v)));
      for (auto& x : v) if (x.IsSmall()) sm = true; else want.insert(x);
    }
    ++g.reads;
    std::vector<AllocationId> got(s.begin(), s.end());
    std::set<AllocationId> g2(got.begin(), got.end());
    if (g2 != want || got.size() != want.size() || s.size() != want.size()) Fail("the set has " + std::to_string(got.size()) + " elements (size() " + std::to_string(s.size()) + "), must have " + std::to_string(want.size()));
    if (s.contains_small_allocation_id() != sm) Fail("contains_small_allocation_id()");
    if (s.empty() != want.empty()) Fail("empty()");
    // Made in other ways.
    std::vector<AllocationId> w(want.begin(), want.end());
    if (sm) w.push_back(small);
    AllocationIdSet x{absl::MakeConstSpan(w)}, y(sm);
    for (auto it = want.rbegin(); it != want.rend(); ++it) y.Insert(*it);
    AllocationIdSet z; z.Insert(y);
    for (auto* p : {&x, &y, &z}) if (!(s == *p) || !(*p == s)) Fail("it is not equal to a set of the same allocations");
    for (size_t i = 0; i < w.size(); i += std::max<size_t>(1, w.size() / 3)) {
      auto v = w; v.erase(v.begin() + i);
      AllocationIdSet less{absl::MakeConstSpan(v)};
      if (s == less || less == s) Fail("it is equal to a set that has less");
      if (!w[i].IsSmall()) { for (auto& c : *a) if (!want.count(c)) { less.Insert(c); if (s == less || less == s) Fail("it is equal to a set of other allocations"); break; } }
    }
    if (sm) { AllocationIdSet q(true); if ((s == q) != want.empty()) Fail("== to the set of small allocations"); }
    for (auto& v : want) *st += Str(O(v.ObjectByOffset(0)));
    *st += sm ? "s" : "";
  }};
}

Shard Base62() {
  static const char kDigits[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
  std::vector<std::string> names;
  for (int i = 0; i < 22; ++i) names.push_back("digit " + std::to_string(i));
  return {"base62", names, 2, [=](const std::vector<int>& h, std::string* st) {
    using U128 = unsigned __int128;
    auto check = [&](U128 v) {
      ++g.reads;
      const absl::uint128 x = absl::MakeUint128((uint64_t)(v >> 64), (uint64_t)v);
      std::string want(22, '0');
      U128 t = v; for (int i = 21; i >= 0; --i, t /= 62) want[i] = kDigits[(int)(t % 62)];
      const std::string got(kd::internal::EncodeBase62(x).view());
      if (got != want) Fail("base 62 of " + want + " is " + got);
      if (kd::internal::Base62Repr(x) != want) Fail("Base62Repr of " + want);
      if (kd::internal::DecodeBase62(got) != x) Fail(got + " is decoded to another number");
      ObjectId o = ObjectId::UnsafeCreateFromInternalHighLow((uint64_t)(v >> 64), (uint64_t)v);
      if (o.ToRawInt128() != x) Fail("the raw form of an id");
      Eq(Ok(kd::internal::DecodeItemId()(Ok(kd::internal::EncodeItemId()(O(o)), "encode_itemid")), "decode_itemid"), O(o), "decode(encode)");
    };
    auto power = [](int k) { U128 r = 1; while (k--) r *= 62; return r; };
    if (h.empty()) { for (int k = 0; k <= 128; ++k) for (int d = -2; d <= 2; ++d) check((k == 128 ? (U128)0 : (U128)1 << k) + d); return; }
    for (int d = 0; d < 62; ++d) for (int e = 0; e < (h.size() == 2 ? 62 : 1); ++e) for (int fill : {0, 1}) for (int c : {-1, 0, 1}) {
      U128 v = fill ? power(std::min(h[0], h.size() == 2 ? h[1] : 22)) - 1 : 0;
      v += d * power(h[0]) + c;
      if (h.size() == 2) v += e * power(h[1]);
      check(v);
    }
    *st = std::to_string(h[0]) + "," + (h.size() == 2 ? std::to_string(h[1]) : "");
  }};
}

// One uuid, one content.
void OneToOne(const std::string& key, const DataItem& u, const std::string& who) {
  static std::map<std::string, std::string> of, from;
  ++g.reads;
  if (!IsId(u) || !Id(u).IsUuid()) Fail(who + " of " + key + " gives " + Str(u));
  const std::string val = Str(u);
  if (auto it = of.insert({key, val}).first; it->second != val) Fail(who + " of " + key + " gives " + val + ", and gave " + it->second);
  if (auto it = from.insert({val, key}).first; it->second != key) Fail(who + " of " + key + " gives " + val + ", as of " + it->second);
}
arolla::DenseArrayEdge EdgeOf(std::vector<int64_t> v) { return *arolla::DenseArrayEdge::FromSplitPoints(arolla::CreateFullDenseArray(v)); }

// Slices of ids of every kind.
Shard ItemIds() {
  using namespace kd::internal;
  struct E { std::string name; DataItem x; };
  auto es = std::make_shared<std::vector<E>>();
  auto add = [&](std::string n, DataItem x) { es->push_back({n, x}); };
  const auto A5 = Allocate(5), B5 = Allocate(5), A2 = Allocate(2), K = Allocate(1000), L5 = AllocateLists(5), D5 = AllocateDicts(5), S5 = AllocateExplicitSchemas(5);
  add("A0", O(A5.ObjectByOffset(0))); add("A4", O(A5.ObjectByOffset(4))); add("B0", O(B5.ObjectByOffset(0))); add("two0", O(A2.ObjectByOffset(0))); add("two1", O(A2.ObjectByOffset(1))); add("K999", O(K.ObjectByOffset(999))); add("K0", O(K.ObjectByOffset(0)));
  add("single", O(AllocateSingleObject())); add("list", O(AllocateSingleList())); add("L3", O(L5.ObjectByOffset(3))); add("L0", O(L5.ObjectByOffset(0))); add("dict", O(AllocateSingleDict())); add("D3", O(D5.ObjectByOffset(3))); add("schema", O(AllocateExplicitSchema())); add("S3", O(S5.ObjectByOffset(3)));
  const auto one = I(1);
  add("uuid", CreateUuidFromFields("x", {"a"}, {std::cref(one)})); add("uuid list", CreateUuidFromFields("x", {"a"}, {std::cref(one)}, UuidType::kList)); add("uuid of A4", Ok(CreateUuidWithMainObject(O(A5.ObjectByOffset(4)), "q"), "uuid"));
  add("None", N());
  std::vector<std::string> names;
  for (auto& e : *es) names.push_back(e.name);
  auto mine = std::make_shared<std::set<Raw>>();
  for (auto& e : *es) if (IsId(e.x)) mine->insert(RawOf(Id(e.x)));
  auto kind = [](ObjectId o) { return o.IsList() ? kList_ : o.IsDict() ? kDict_ : o.IsSchema() ? kSchema_ : kEntity; };
  return {"item ids", names, 3, [=](const std::vector<int>& h, std::string* st) {
    Items_ v;
    for (int o : h) v.push_back((*es)[o].x);
    const DataSliceImpl s = Slice(v);
    // Encoded and back.
    auto enc = Ok(EncodeItemId()(s), "encode_itemid");
    Items_ want;
    for (auto& x : v) want.push_back(Ok(EncodeItemId()(x), "encode_itemid"));
    EqSlice(enc, want, "encode_itemid");
    for (size_t i = 0; i < v.size(); ++i) {
      if (IsId(v[i]) != want[i].holds_value<arolla::Text>()) Fail("encode_itemid of " + Str(v[i]));
      for (size_t j = 0; j < i; ++j) if (IsId(v[i]) && Same(want[i], want[j]) != Same(v[i], v[j])) Fail("two ids are encoded alike");
      Eq(Ok(DecodeItemId()(want[i]), "decode_itemid"), v[i], "decode(encode)");
    }
    EqSlice(Ok(DecodeItemId()(enc), "decode_itemid"), v, "decode(encode)");
    // New ids.
    auto fresh = Items(NewIdsLike(s));
    std::set<Raw> seen;
    if (fresh.size() != v.size()) Fail("new_ids_like gives another size");
    for (size_t i = 0; i < v.size(); ++i) {
      if (IsId(fresh[i]) != IsId(v[i])) Fail("new_ids_like of " + Str(v) + " = " + Str(fresh));
      if (!IsId(v[i])) continue;
      CheckKind(Id(fresh[i]), kind(Id(v[i])), "new_ids_like");
      if (!seen.insert(RawOf(Id(fresh[i]))).second || mine->count(RawOf(Id(fresh[i])))) Fail("new_ids_like gives an id that is not new");
    }
    EqSlice(NewIdsLike(s).size() == v.size() ? DataSliceImpl(Slice(fresh)) : s, fresh, "new_ids_like");
    auto again = NewIdsLike(s);
    EqSlice(again, Items(again), "new_ids_like");
    // Uuids with a main object.
    auto main = [&](auto f, const std::string& fl, Kind k) {
      for (const char* salt : {"", "q"}) {
        Items_ w;
        for (auto& x : v) {
          w.push_back(Ok(f(x, salt), "uuid with main object"));
          if (w.back().has_value() != x.has_value()) Fail("the uuid with the main object " + Str(x) + " is " + Str(w.back()));
          if (!x.has_value()) continue;
          const ObjectId a = Id(x), b = Id(w.back());
          CheckKind(b, k, "uuid with main object", true);
          if (k == kSchema_ && (!b.IsImplicitSchema() || b.IsExplicitSchema())) Fail("an implicit schema is not");
          if (a.Offset() != b.Offset() || AllocationId(a).Capacity() != AllocationId(b).Capacity()) Fail("the uuid with the main object " + Str(x) + " has another offset or capacity");
          OneToOne(fl + "|" + salt + "|" + Str(x), w.back(), "uuid with main object");
        }
        EqSlice(Ok(f(s, salt), "uuids with main objects"), w, "uuids with main objects");
      }
    };
    main([](auto& x, const char* salt) { return CreateUuidWithMainObject<ObjectId::kUuidFlag>(x, salt); }, "uuid", kEntity);
    main([](auto& x, const char* salt) { return CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(x, salt); }, "implicit", kSchema_);
    // Of whole groups.
    for (auto& sp : std::vector<std::vector<int64_t>>{{0, (int64_t)v.size()}, {0, 0, (int64_t)v.size()}, {0, (int64_t)v.size() / 2, (int64_t)v.size()}}) {
      auto u = Items(Ok(AggUuidOp(s, *arolla::JaggedDenseArrayShape::FromEdges({EdgeOf({0, (int64_t)sp.size() - 1}), EdgeOf(sp)})), "agg_uuid"));
      if (u.size() != sp.size() - 1) Fail("agg_uuid gives another size");
      for (size_t i = 0; i < u.size(); ++i) {
        Items_ present;  // Missing items do not count (kd.agg_uuid puts something in their place).
        for (int64_t j = sp[i]; j < sp[i + 1]; ++j) if (v[j].has_value()) present.push_back(v[j]);
        OneToOne("agg|" + Str(present), u[i], "agg_uuid");
      }
    }
    for (int o : h) *st += std::to_string(o) + ",";
    if (h.size() == 1 && v[0].has_value()) {
      for (auto& x : {I(1), T("a"), U()}) { NotOk(EncodeItemId()(x), "encode_itemid of a primitive"); NotOk(EncodeItemId()(Slice({x, N()})), "encode_itemid of primitives"); NotOk(EncodeItemId()(Slice({x, v[0]})), "encode_itemid of a mixed slice"); NotOk(CreateUuidWithMainObject(x, "q"), "uuid with a primitive"); NotOk(CreateUuidWithMainObject(Slice({x, N()}), "q"), "uuid with primitives"); }
      for (auto& x : {I(1), Y("a"), v[0]}) { NotOk(DecodeItemId()(x), "decode_itemid of no text"); NotOk(DecodeItemId()(Slice({x, N()})), "decode_itemid of no text"); NotOk(DecodeItemId()(Slice({x, T("a")})), "decode_itemid of a mixed slice"); }
    }
  }};
}

// Uuids of fields.
Shard Uuids() {
  using namespace kd::internal;
  const ObjectId o1 = ObjectId::UnsafeCreateFromInternalHighLow(5, 1), o2 = ObjectId::UnsafeCreateFromInternalHighLow(1, 5);
  auto vals = std::make_shared<Items_>(Items_{N(), I(1), L(1), F(1), D(1), I(0), I(0x3f800000), B(true), B(false), U(), T("1"), Y("1"), T(""), T("ab"), O(o1), O(o2), DataItem(kd::schema::kInt32), DataItem(kd::schema::kInt64)});
  auto ns = std::make_shared<std::vector<std::string>>(std::vector<std::string>{"a", "b", "ab", ""});
  std::vector<std::string> names;
  for (auto& n : *ns) for (auto& v : *vals) names.push_back("'" + n + "': " + Str(v));
  auto all = [=](const std::vector<int>& h, bool slices) {
    std::vector<std::string_view> an; Items_ v;
    std::map<std::string, std::string> sorted;
    for (int o : h) { an.push_back((*ns)[o / vals->size()]); v.push_back((*vals)[o % vals->size()]); if (!sorted.insert({(*ns)[o / vals->size()], Str(v.back())}).second) return; }
    std::vector<std::reference_wrapper<const DataItem>> vr(v.begin(), v.end());
    std::string key;
    for (auto& [a, b] : sorted) key += std::to_string(a.size()) + a + "=" + std::to_string(b.size()) + b + ";";
    for (std::string seed : {"", "a", "ab"}) {
      const std::string k = "|" + seed + "|" + key;
      struct { UuidType t; const char* n; Kind kind; } types[] = {{UuidType::kDefault, "uuid", kEntity}, {UuidType::kList, "uuid list", kList_}, {UuidType::kDict, "uuid dict", kDict_}};
      for (auto& t : types) {
        auto u = CreateUuidFromFields(seed, an, vr, t.t);
        OneToOne(t.n + k, u, "uuid");
        CheckKind(Id(u), t.kind, "uuid", true);
        if (slices && !v.empty()) {
          // Row by row; the other rows have other values.
          std::vector<DataSliceImpl> cols;
          std::vector<Items_> rows(4);
          for (size_t i = 0; i < v.size(); ++i) for (int r = 0; r < 4; ++r) rows[r].push_back(r == 1 ? v[i] : r == 3 ? N() : (*vals)[(i + r + h[i]) % vals->size()]);
          for (size_t i = 0; i < v.size(); ++i) { Items_ c; for (auto& r : rows) c.push_back(r[i]); cols.push_back(Slice(c)); }
          std::vector<std::reference_wrapper<const DataSliceImpl>> cr(cols.begin(), cols.end());
          Items_ w;
          for (auto& r : rows) { std::vector<std::reference_wrapper<const DataItem>> rr(r.begin(), r.end()); w.push_back(CreateUuidFromFields(seed, an, rr, t.t)); }
          EqSlice(Ok(CreateUuidFromFields(seed, an, cr, t.t), "uuids"), w, "uuids of slices");
          if (!Same(w[1], u)) Fail("the uuid of the same fields is another one");
          if (v.size() > 1) { cols.back() = Slice(Items_{N()}); NotOk(CreateUuidFromFields(seed, an, cr, t.t), "uuids of slices of other sizes"); }
        }
      }
      auto sch = CreateSchemaUuidFromFields(seed, an, vr);
      OneToOne("schema" + k, sch, "schema uuid");
      if (!Id(sch).IsExplicitSchema() || Id(sch).IsNoFollowSchema()) Fail("a schema uuid is no schema");
      // Lists and dicts with these items, with and without a field.
      const DataItem f = I(7);
      for (int with = 0; with < 2; ++with) {
        std::vector<std::string_view> fa; std::vector<std::reference_wrapper<const DataItem>> fv;
        if (with) { fa.push_back("f"); fv.push_back(std::cref(f)); }
        const std::string fk = std::string(with ? "f" : "") + "|" + seed + "|";
        auto l = CreateListUuidFromItemsAndFields(seed, Slice(v), fa, fv);
        CheckKind(Id(l), kList_, "list uuid", true);
        OneToOne("list" + fk + Str(v), l, "list uuid");
        Items_ keys; for (auto& a : an) keys.push_back(T(a));
        auto d = CreateDictUuidFromKeysValuesAndFields(seed, Slice(keys), Slice(v), fa, fv);
        CheckKind(Id(d), kDict_, "dict uuid", true);
        auto pairs = [&](const Items_& a, const Items_& b) { std::map<std::string, std::string> m; for (size_t i = 0; i < a.size(); ++i) m[Str(a[i])] = Str(b[i]); std::string r; for (auto& [x, y] : m) r += std::to_string(x.size()) + x + "=" + std::to_string(y.size()) + y + ";"; return r; };
        OneToOne("dict" + fk + pairs(keys, v), d, "dict uuid");
        if (v.size() <= 2) {
          // With the values as keys.
          std::set<std::string> inv;
          for (auto& x : v) if (x.has_value()) inv.insert(Str(x));
          if (inv.size() == v.size()) OneToOne("dict" + fk + pairs(v, keys), CreateDictUuidFromKeysValuesAndFields(seed, Slice(v), Slice(keys), fa, fv), "dict uuid");
        }
      }
    }
  };
  return {"uuids", names, 2, [=](const std::vector<int>& h, std::string* st) {
    static bool first = true;
    if (first) { first = false; all({}, false); for (size_t i = 0; i < names.size(); ++i) all({(int)i}, false); }
    all(h, true);
    if (h.size() == 2) {
      all({h[1], h[0]}, false);
      const int third = (int)(2 * vals->size()) + (h[0] + h[1]) % (int)vals->size();
      for (auto& p : std::vector<std::vector<int>>{{h[0], h[1], third}, {third, h[0], h[1]}, {h[1], third, h[0]}}) all(p, false);
    }
    if (h.empty()) {
      Items_ ss{DataItem(kd::schema::kInt32), DataItem(kd::schema::kInt64), DataItem(kd::schema::kString), DataItem(kd::schema::kObject), O(o1)};
      for (auto& a : ss) { OneToOne("list schema " + Str(a), CreateListSchemaId(a), "list schema"); for (auto& b : ss) OneToOne("dict schema " + Str(a) + Str(b), CreateDictSchemaId(a, b), "dict schema"); }
      for (auto n : {"", "a", "b", "ab"}) OneToOne(std::string("named schema ") + n, CreateNamedSchemaId(n), "named schema");
      for (std::string seed : {"", "a", "ab"}) for (int64_t n : {1, 2, 3, 4, 5, 64, 65, 1000}) {
        auto u = Items(Ok(CreateUuidsWithAllocationSize(seed, n), "uuids with allocation size"));
        if (u.size() != (size_t)n) Fail("uuids with allocation size " + std::to_string(n) + ": " + std::to_string(u.size()));
        for (int64_t i = 0; i < n; ++i) {
          OneToOne("with size|" + seed + "|" + std::to_string(n) + "|" + std::to_string(i), u[i], "uuids with allocation size");
          CheckKind(Id(u[i]), kEntity, "uuids with allocation size", true);
          if (!(AllocationId(Id(u[i])) == AllocationId(Id(u[0])))) Fail("uuids with allocation size are of two allocations");
        }
        EqSlice(Ok(CreateUuidsWithAllocationSize(seed, n), "again"), u, "uuids with allocation size");
      }
    }
    for (int o : h) *st += std::to_string(o) + ",";
  }};
}
}  // namespace

std::vector<Shard> Families() { return {Allocations(), Many(), Sets(), Base62(), ItemIds(), Uuids()}; }
}  // namespace drv
