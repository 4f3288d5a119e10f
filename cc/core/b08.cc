// B08: items are equal, hashed, ordered and fingerprinted by their values; slices hold what was put in them.
#include "bag.h"
#include "arolla/dense_array/bitmap.h"
#include "koladata/internal/slice_builder.h"
#include "koladata/internal/uuid_object.h"
namespace drv {
namespace {
using arolla::Bytes; using arolla::Text; using arolla::Unit;
using kd::internal::SliceBuilder;

struct Named { std::string name; DataItem x; };
const std::vector<Named>& All() {
  static std::vector<Named>* all = [] {
    auto* r = new std::vector<Named>{{"None", N()}, {"1", I(1)}, {"1L", L(1)}, {"2", I(2)}, {"2L", L(2)}, {"-1", I(-1)}, {"-1L", L(-1)}, {"2^31 L", L(1ll << 31)}, {"2^32+1 L", L((1ll << 32) + 1)}, {"min", I(INT32_MIN)},
        {"1f", F(1)}, {"1d", D(1)}, {"0.1f", F(0.1f)}, {"0.1d", D(0.1)}, {"inf f", F(HUGE_VALF)}, {"inf d", D(HUGE_VAL)}, {"nan f", F(NAN)}, {"nan d", D(NAN)}, {"true", B(true)}, {"false", B(false)}, {"unit", U()},
        {"''", T("")}, {"'a'", T("a")}, {"'b'", T("b")}, {"b''", Y("")}, {"b'a'", Y("a")}, {"INT32", DataItem(kd::schema::kInt32)}, {"OBJECT", DataItem(kd::schema::kObject)}, {"SCHEMA", DataItem(kd::schema::kSchema)}};
    auto a = kd::internal::Allocate(5), l = kd::internal::AllocateLists(5), s = kd::internal::AllocateExplicitSchemas(5);
    r->push_back({"a0", O(a.ObjectByOffset(0))}); r->push_back({"a1", O(a.ObjectByOffset(1))}); r->push_back({"single", O(kd::internal::AllocateSingleObject())}); r->push_back({"l0", O(l.ObjectByOffset(0))});
    r->push_back({"list", O(kd::internal::AllocateSingleList())}); r->push_back({"dict", O(kd::internal::AllocateSingleDict())}); r->push_back({"dicts", O(kd::internal::AllocateDicts(5).ObjectByOffset(1))});
    r->push_back({"s0", O(s.ObjectByOffset(0))}); r->push_back({"schema", O(kd::internal::AllocateExplicitSchema())}); r->push_back({"uuid", O(kd::internal::CreateUuidObject(arolla::Fingerprint{.value = 77}))});
    return r;
  }();
  return *all;
}
bool Id_(const DataItem& x) { return x.holds_value<ObjectId>(); }
std::optional<int64_t> Int(const DataItem& x) { if (x.holds_value<int32_t>()) return x.value<int32_t>(); if (x.holds_value<int64_t>()) return x.value<int64_t>(); return std::nullopt; }
std::optional<double> Flt(const DataItem& x) { if (x.holds_value<float>()) return x.value<float>(); if (x.holds_value<double>()) return x.value<double>(); return std::nullopt; }
bool Equal(const DataItem& a, const DataItem& b) {
  if (Int(a) && Int(b)) return *Int(a) == *Int(b);
  if (Flt(a) && Flt(b)) return *Flt(a) == *Flt(b);
  return Same(a, b);
}
int Rank(const DataItem& x) { return Int(x) ? 1 : Flt(x) ? 2 : 3 + (int)x.type_id(); }
template <typename X> std::string Print(const X& a, const X& b) { return Str(a) + " and " + Str(b); }

// With the value, and a view of it, instead of the item.
template <typename F> void WithValue(const DataItem& x, F f) {
  x.VisitValue([&]<typename V>(const V& v) {
    if constexpr (!std::is_same_v<V, kd::internal::MissingValue>) { f(v); f(DataItem::View<V>{v}); }
  });
}
void Pair(const DataItem& a, const DataItem& b) {
  ++g.reads;
  const std::string who = Str(a) + " and " + Str(b);
  const bool eq = Equal(a, b), nan = a.is_nan() || b.is_nan();
  if ((a == b) != eq || (a != b) == eq || DataItem::Eq()(a, b) != eq) Fail("== of " + who + " is " + (eq ? "false" : "true"));
  if (a.IsEquivalentTo(b) != (Same(a, b) && !nan)) Fail("IsEquivalentTo of " + who);
  if (eq && DataItem::Hash()(a) != DataItem::Hash()(b)) Fail("the hashes of " + who + " differ");
  if (eq && DataItem::HashOfPair()({a, b}) != DataItem::HashOfPair()({b, a})) Fail("the hashes of pairs of " + who + " differ");
  if (!nan && (a.StableFingerprint() == b.StableFingerprint()) != Same(a, b)) Fail("the stable fingerprints of " + who);
  if (nan && !Same(a, b) && a.StableFingerprint() == b.StableFingerprint()) Fail("the stable fingerprints of " + who + " are equal");
  if (Same(a, b) && !(a.StableFingerprint() == b.StableFingerprint())) Fail("the stable fingerprints of " + who + " differ");
  const bool less = DataItem::Less()(a, b), more = DataItem::Less()(b, a);
  if (!nan && less + more + eq != 1) Fail("of " + who + ", a < b is " + std::to_string(less) + ", b < a is " + std::to_string(more));
  if (!nan && Int(a) && Int(b) && less != (*Int(a) < *Int(b))) Fail("a < b of the integers " + who);
  if (!nan && Flt(a) && Flt(b) && less != (*Flt(a) < *Flt(b))) Fail("a < b of the floats " + who);
  if (a.holds_value<Text>() && b.holds_value<Text>() && less != (a.value<Text>().view() < b.value<Text>().view())) Fail("a < b of " + who);
  if (a.holds_value<Bytes>() && b.holds_value<Bytes>() && less != (a.value<Bytes>() < b.value<Bytes>())) Fail("a < b of " + who);
  WithValue(b, [&](const auto& v) {
    if ((a == v) != eq || DataItem::Eq()(a, v) != eq) Fail("== of " + who + " as a value differs");
    if (DataItem::Hash()(v) != DataItem::Hash()(b)) Fail("the hash of " + Str(b) + " as a value differs");
    if (DataItem::Less()(a, v) != less) Fail("a < b of " + who + " as a value differs");
  });
  if (!b.has_value() && ((a == std::nullopt) != eq || DataItem::Less()(a, std::nullopt))) Fail("comparison with nullopt of " + Str(a));
}
Shard ItemLaws() {
  std::vector<std::string> names;
  for (auto& x : All()) names.push_back(x.name);
  return {"items", names, 3, [](const std::vector<int>& h, std::string* st) {
    std::vector<DataItem> v;
    for (int o : h) { v.push_back(All()[o].x); *st += std::to_string(o) + ","; }
    if (v.size() == 1) {
      auto& x = v[0];
      ++g.reads;
      const bool id = Id_(x);
      const ObjectId o = id ? x.value<ObjectId>() : ObjectId();
      const bool dt = x.holds_value<kd::schema::DType>();
      if (x.has_value() != (Str(x) != Str(N())) || x.present_count() != (x.has_value() ? 1 : 0)) Fail("has_value of " + Str(x));
      if (x.is_list() != (id && o.IsList()) || x.is_dict() != (id && o.IsDict()) || x.is_entity() != (id && o.IsEntity()) || x.is_schema() != (dt || id && o.IsSchema()) || x.is_struct_schema() != (id && o.IsSchema())) Fail("the kind of " + Str(x));
      if (x.ContainsAnyPrimitives() != (x.has_value() && !id) || x.ContainsOnlyLists() != (!x.has_value() || x.is_list()) || x.ContainsOnlyDicts() != (!x.has_value() || x.is_dict()) || x.ContainsOnlyEntities() != (!x.has_value() || x.is_entity())) Fail("Contains... of " + Str(x));
      if (x.is_primitive_schema() != Same(x, DataItem(kd::schema::kInt32)) || x.is_object_schema() != Same(x, DataItem(kd::schema::kObject)) || x.is_schema_schema() != Same(x, DataItem(kd::schema::kSchema))) Fail("the kind of schema of " + Str(x));
      if (x.is_nan() != (Flt(x) && *Flt(x) != *Flt(x))) Fail("is_nan of " + Str(x));
      WithValue(x, [&]<typename V>(const V& w) { if (!Same(DataItem(w), x)) Fail("DataItem(" + Str(x) + ") is " + Str(DataItem(w))); });
      Pair(x, x);
    }
    if (v.size() >= 2) Pair(v[0], v[1]);
    if (v.size() == 3 && !v[0].is_nan() && !v[1].is_nan() && !v[2].is_nan()) {
      ++g.reads;
      auto less = DataItem::Less();
      if (less(v[0], v[1]) && less(v[1], v[2]) && !less(v[0], v[2])) Fail("< is not transitive on " + Str(v));
    }
  }};
}

// Slices made of the same items in other ways.
void SameSlice(const DataSliceImpl& s, const Items_& v, const std::string& how, bool exact = true) {
  if (!exact) {
    auto got = Items(s);
    ++g.reads;
    if (Str(got) != Str(v)) Fail(how + " = " + Str(got) + ", must be " + Str(v));
    for (size_t i = 0; i < v.size(); ++i) if (s.present(i) != v[i].has_value()) Fail(how + ": present(" + std::to_string(i) + ")");
    size_t n = 0; bool nan = false;
    for (auto& x : v) { n += x.has_value(); nan |= x.is_nan(); }
    if (s.present_count() != n) Fail(how + ": present_count()");
    if (!nan && (!s.IsEquivalentTo(Slice(v)) || !Slice(v).IsEquivalentTo(s))) Fail(how + " is not equivalent to a slice of " + Str(v));
  } else {
    EqSlice(s, v, how);
    bool prim = false, lists = true, dicts = true, ents = true;
    for (auto& x : v) { prim |= x.ContainsAnyPrimitives(); lists &= x.ContainsOnlyLists(); dicts &= x.ContainsOnlyDicts(); ents &= x.ContainsOnlyEntities(); }
    if (s.ContainsAnyPrimitives() != prim || s.ContainsOnlyLists() != lists || s.ContainsOnlyDicts() != dicts || s.ContainsOnlyEntities() != ents) Fail(how + ": Contains... of " + Str(v));
  }
  auto a = s.AsDataItemDenseArray();
  if (a.size() != (int64_t)v.size()) Fail(how + ": size of AsDataItemDenseArray()");
  for (size_t i = 0; i < v.size(); ++i) if (a.present(i) != v[i].has_value() || a.present(i) && !Same(DataItem(a[i].value), v[i])) Fail(how + ": AsDataItemDenseArray() of " + Str(v));
  size_t k = 0;
  for (const auto& x : s) if (!Same(x, v.at(k++))) Fail(how + ": iteration over " + Str(v));
}
Shard Slices() {
  static const std::vector<int> use{0, 1, 3, 10, 16, 19, 20, 22, 25, 26, 29, 30, 31, 32, 33, 34, 35, 36, 38};
  std::vector<std::string> names;
  for (int i : use) names.push_back(All()[i].name);
  return {"slices", names, 3, [](const std::vector<int>& h, std::string* st) {
    for (int o : h) *st += std::to_string(o) + ",";
    Items_ unit;
    for (int o : h) unit.push_back(All()[use[o]].x);
    for (size_t n : {unit.size(), (size_t)70}) {
      if (n == 70 && (unit.empty() || h.size() == 3 && (h[0] + h[1] + h[2]) % 4)) continue;
      Items_ v;
      for (size_t i = 0; i < n; ++i) v.push_back(unit[i < 32 ? 0 : i % unit.size()]);
      if (n == unit.size()) v = unit;
      auto s = Slice(v);
      SameSlice(s, v, "Create(items)");
      std::vector<arolla::OptionalValue<DataItem>> ov; bool dense = true;
      for (auto& x : v) ov.push_back(x.has_value() ? arolla::OptionalValue<DataItem>(x) : std::nullopt);
      SameSlice(DataSliceImpl::Create(arolla::CreateDenseArray<DataItem>(ov)), v, "Create(array of items)");
      if (unit.size() == 1) SameSlice(DataSliceImpl::Create(n, unit[0]), v, "Create(size, item)");
      {
        SliceBuilder b(n);
        for (size_t i = n; i-- > 0;) b.InsertGuaranteedNotSetAndUpdateAllocIds(i, v[i]);
        if (b.size() != n || !b.is_finalized()) Fail("a builder with everything set is not finalized");
        SameSlice(std::move(b).Build(), v, "built from behind");
      }
      auto twice = s.UnsetToRemoved();
      SameSlice(twice, v, "UnsetToRemoved()");
      auto made = [&]<typename... Ts>(std::type_identity<std::tuple<Ts...>>) {
        auto one = [&]<typename V>(std::type_identity<V>) {
          std::vector<arolla::OptionalValue<V>> r;
          for (auto& x : v) r.push_back(x.holds_value<V>() ? arolla::OptionalValue<V>(x.value<V>()) : std::nullopt);
          return arolla::CreateDenseArray<V>(r);
        };
        (void)dense;
        if (!v.empty()) SameSlice(DataSliceImpl::Create(one(std::type_identity<Ts>())...), v, "Create(arrays)", false);
      };
      made(std::type_identity<std::tuple<int32_t, float, bool, Unit, Text, Bytes, kd::schema::DType, ObjectId>>());
      made(std::type_identity<std::tuple<ObjectId, kd::schema::DType, Bytes, Text, Unit, bool, float, int32_t>>());
      for (size_t i = 0; i < n; i += n > 3 ? 31 : 1) for (size_t k = 1; i + k <= n; k += n > 3 ? 32 : 1) {
        Items_ part(v.begin() + i, v.begin() + i + k);
        SameSlice(s.SubSlice(i, k), part, "SubSlice(" + std::to_string(i) + ", " + std::to_string(k) + ")", false);
        SameSlice(s.SubSlice(i, k).UnsetToRemoved(), part, "SubSlice().UnsetToRemoved()", false);
        if (k > 1) SameSlice(s.SubSlice(i, k).SubSlice(1, k - 1), Items_(part.begin() + 1, part.end()), "SubSlice().SubSlice()", false);
      }
      // Others are not equivalent.
      for (size_t i = 0; i < n; i += n > 3 ? 23 : 1) for (auto& y : {N(), I(1), L(1), T("a"), All()[29].x}) if (!Same(y, v[i])) {
        Items_ w = v; w[i] = y;
        if (s.IsEquivalentTo(Slice(w)) || Slice(w).IsEquivalentTo(s)) Fail(Str(v) + " is equivalent to " + Str(w));
      }
      if (n) { Items_ w(v.begin(), v.end() - 1); if (s.IsEquivalentTo(Slice(w)) || Slice(w).IsEquivalentTo(s)) Fail(Str(v) + " is equivalent to " + Str(w)); }
    }
  }};
}

// A builder, step by step.
struct State { SliceBuilder b; std::vector<OptItem> m; };
using Step = std::pair<std::string, std::function<void(State&)>>;
template <typename V> arolla::DenseArray<V> Arr(size_t n, std::function<bool(size_t)> has, std::function<V(size_t)> f) {
  std::vector<arolla::OptionalValue<V>> r;
  for (size_t i = 0; i < n; ++i) r.push_back(has(i) ? arolla::OptionalValue<V>(f(i)) : std::nullopt);
  return arolla::CreateDenseArray<V>(r);
}
void Put(State& s, size_t i, const DataItem& x) {
  if (!s.m[i]) s.m[i] = x;
}
Shard Builder(size_t n) {
  auto steps = std::make_shared<std::vector<Step>>();
  auto inputs = std::make_shared<std::vector<std::function<void()>>>();
  const std::vector<size_t> pos{0, n / 2, n - 1};
  const auto A = kd::internal::Allocate(n);
  const ObjectId a = A.ObjectByOffset(0), single = kd::internal::AllocateSingleObject();
  for (size_t p : pos) {
    const std::string at = "[" + std::to_string(p) + "]";
    for (auto& x : Items_{I(1), T("t"), O(single), N()}) {
      steps->push_back({at + "=" + Str(x), [=](State& s) { s.b.InsertIfNotSetAndUpdateAllocIds(p, x); Put(s, p, x); }});
    }
    steps->push_back({at + "=a, plain", [=](State& s) { s.b.GetMutableAllocationIds().Insert(A); s.b.InsertIfNotSet(p, O(a)); Put(s, p, O(a)); }});
    steps->push_back({at + "=optional 5f", [=](State& s) { s.b.InsertIfNotSet(p, std::optional<float>(5)); Put(s, p, F(5)); }});
    steps->push_back({at + "=no text", [=](State& s) { s.b.InsertIfNotSet(p, arolla::OptionalValue<Text>()); Put(s, p, N()); }});
    steps->push_back({"if not set, " + at + "=2", [=](State& s) { if (!s.m[p]) { s.b.InsertGuaranteedNotSet(p, int32_t{2}); s.m[p] = I(2); } }});
    steps->push_back({"if not set, " + at + "='u' (item)", [=](State& s) { if (!s.m[p]) { s.b.InsertGuaranteedNotSetAndUpdateAllocIds(p, T("u")); s.m[p] = T("u"); } }});
  }
  auto typed = [&]<typename V>(const std::string& name, V x, V y) {
    steps->push_back({"typed " + name, [=](State& s) {
      auto t = s.b.typed<V>();
      if (t.IsSet(pos[0]) != s.m[pos[0]].has_value()) Fail("IsSet() of a typed builder");
      t.InsertIfNotSet(pos[0], x); Put(s, pos[0], DataItem(x));
      t.InsertIfNotSet(pos[2], arolla::OptionalValue<V>(y)); Put(s, pos[2], DataItem(y));
      if (!t.IsSet(pos[2])) Fail("IsSet() of a typed builder after an insertion");
    }});
    steps->push_back({"typed " + name + ", optional", [=](State& s) {
      auto t = s.b.typed<V>();
      t.InsertIfNotSet(pos[1], std::nullopt); Put(s, pos[1], N());
      if (!s.m[pos[2]]) { t.InsertGuaranteedNotSet(pos[2], y); s.m[pos[2]] = DataItem(y); }
    }});
  };
  typed("int", int32_t{3}, int32_t{4}); typed("text", Text("v"), Text("w")); typed("bool", true, false);
  auto batch = [&]<typename V>(const std::string& name, std::function<V(size_t)> f) {
    const auto all = [](size_t) { return true; }, none = [](size_t) { return false; };
    std::vector<std::pair<std::string, std::function<bool(size_t)>>> masks{{"all", all}, {"even", [](size_t i) { return i % 2 == 0; }}, {"the last", [=](size_t i) { return i == n - 1; }}, {"none", none}};
    for (size_t mi = 0; mi < masks.size(); ++mi) for (size_t pi = 0; pi < masks.size(); ++pi) {
      if (mi == 3 && pi || mi && pi == 2) continue;
      auto mask = masks[mi].second, pres = masks[pi].second;
      auto bm = Arr<Unit>(n, mask, [](size_t) { return Unit{}; }).bitmap, bp = Arr<Unit>(n, pres, [](size_t) { return Unit{}; }).bitmap;
      auto vals = Arr<V>(n, all, f).values;
      steps->push_back({"all " + name + ", masked by " + masks[mi].first + ", present: " + masks[pi].first, [=](State& s) {
        if constexpr (std::is_same_v<V, ObjectId>) s.b.GetMutableAllocationIds().Insert(A);
        s.b.InsertIfNotSet<V>(bm, bp, vals);
        for (size_t i = 0; i < n; ++i) if (mask(i)) Put(s, i, pres(i) ? DataItem(f(i)) : N());
      }});
      inputs->push_back([=] { for (size_t i = 0; i < n; ++i) if (!Same(DataItem(V(vals[i])), DataItem(f(i)))) Fail("the values given to a builder were changed"); });
    }
  };
  batch("ints", std::function<int32_t(size_t)>([](size_t i) { return (int32_t)i + 100; }));
  batch("texts", std::function<Text(size_t)>([](size_t i) { return Text("x" + std::to_string(i)); }));
  batch("objects", std::function<ObjectId(size_t)>([=](size_t i) { return A.ObjectByOffset(i); }));
  for (int k = 0; k < 2; ++k) {
    auto has = [=](size_t i) { return k ? i != n / 2 : i == 0; };
    auto mask = Arr<Unit>(n, has, [](size_t) { return Unit{}; });
    steps->push_back({k ? "mask out the middle" : "mask out all but the first", [=](State& s) { s.b.ApplyMask(mask); for (size_t i = 0; i < n; ++i) if (!has(i)) Put(s, i, N()); }});
  }
  std::vector<std::string> names;
  for (auto& s : *steps) names.push_back(s.first);
  return {"a builder of " + std::to_string(n), names, 3, [=](const std::vector<int>& h, std::string* st) {
    State s{SliceBuilder(n), std::vector<OptItem>(n)};
    auto check = [&] {
      ++g.reads;
      bool all = true;
      for (size_t i = 0; i < n; ++i) { all &= s.m[i].has_value(); if (s.b.IsSet(i) != s.m[i].has_value()) Fail("IsSet(" + std::to_string(i) + ")"); }
      if (s.b.size() != n || s.b.is_finalized() != all) Fail("is_finalized() is wrong");
    };
    for (int o : h) { (*steps)[o].second(s); check(); }
    Items_ want;
    for (auto& x : s.m) { want.push_back(x.value_or(N())); *st += x ? Str(*x) + "," : "?,"; }
    auto r = std::move(s.b).Build();
    EqSlice(r, want, "the slice built");
    // What was not set differs from what was removed.
    for (size_t i = 0; i < n; ++i) {
      const bool unset = r.has_types_buffer() && r.types_buffer().id_to_typeidx[i] == TypesBuffer::kUnset;
      if (unset != !s.m[i].has_value()) Fail("item " + std::to_string(i) + " of the slice is " + (unset ? "unset" : "not unset"));
    }
    auto u = r.UnsetToRemoved();
    EqSlice(u, want, "UnsetToRemoved()");
    for (size_t i = 0; u.has_types_buffer() && i < n; ++i) if (u.types_buffer().id_to_typeidx[i] == TypesBuffer::kUnset) Fail("item " + std::to_string(i) + " is unset after UnsetToRemoved()");
    EqSlice(r, want, "the slice, later,");
    for (auto& f : *inputs) f();
  }};
}
}  // namespace

std::vector<Shard> Families() { return {ItemLaws(), Slices(), Builder(3), Builder(70)}; }
}  // namespace drv
