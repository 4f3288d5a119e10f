// B09: casting an item gives the documented value or fails; a slice is cast item by item.
#include "bag.h"
#include "koladata/internal/casting.h"
#include "koladata/internal/schema_attrs.h"
#include "koladata/internal/schema_utils.h"
namespace drv {
namespace {
using arolla::Bytes; using arolla::Text; using arolla::Unit;
namespace sc = kd::schema;
using DT = DataItem;
struct To { std::string name; DataItem schema; };
const std::vector<To>& Targets() {
  static auto* r = new std::vector<To>{{"NONE", DT(sc::kNone)}, {"INT32", DT(sc::kInt32)}, {"INT64", DT(sc::kInt64)}, {"FLOAT32", DT(sc::kFloat32)}, {"FLOAT64", DT(sc::kFloat64)}, {"BOOLEAN", DT(sc::kBool)}, {"MASK", DT(sc::kMask)}, {"STRING", DT(sc::kString)},
      {"BYTES", DT(sc::kBytes)}, {"EXPR", DT(sc::kExpr)}, {"ITEMID", DT(sc::kItemId)}, {"SCHEMA", DT(sc::kSchema)}, {"OBJECT", DT(sc::kObject)}, {"an entity schema", O(kd::internal::AllocateExplicitSchema())}};
  return *r;
}
const Items_& Values() {
  static auto* r = new Items_{N(), I(0), I(7), I(-1), L(0), L(-5), L(1ll << 40), F(0), F(1), F(2.5), F(-2.5), F(1e20f), F(NAN), D(0), D(3), D(-0.75), D(1e30), D(NAN), B(true), B(false), U(), T("1"), T("a"), T(""), T("1.5"), Y("1"), Y("a"), Y(""),
      DT(sc::kInt32), O(kd::internal::AllocateExplicitSchema()), O(kd::internal::Allocate(5).ObjectByOffset(2)), O(kd::internal::AllocateSingleList()), O(kd::internal::AllocateExplicitSchemas(5).ObjectByOffset(1)),
      O(kd::internal::Allocate(1000).ObjectByOffset(2)), O(kd::internal::AllocateLists(5).ObjectByOffset(3)), O(kd::internal::AllocateExplicitSchemas(100).ObjectByOffset(1))};
  return *r;
}
template <typename V> bool Is(const DataItem& x) { return x.holds_value<V>(); }
std::optional<long double> Num(const DataItem& x) {
  if (Is<int32_t>(x)) return x.value<int32_t>();
  if (Is<int64_t>(x)) return x.value<int64_t>();
  if (Is<float>(x)) return x.value<float>();
  if (Is<double>(x)) return x.value<double>();
  if (Is<bool>(x)) return x.value<bool>();
  if (Is<Text>(x) || Is<Bytes>(x)) {
    const std::string s(Is<Text>(x) ? x.value<Text>().view() : std::string_view(x.value<Bytes>()));
    if (s == "1") return 1;
    if (s == "1.5") return 1.5;
  }
  return std::nullopt;
}
// nullopt: an error. `any`: some text, whatever its form.
std::optional<DataItem> Cast(const DataItem& x, const std::string& t, bool* any) {
  if (!x.has_value() || t == "OBJECT") return x;
  const bool str = Is<Text>(x) || Is<Bytes>(x), id = Is<ObjectId>(x);
  auto n = Num(x);
  if (t == "INT32" || t == "INT64") {
    if (!n || *n != *n || str && *n != 1) return std::nullopt;
    const long double v = truncl(*n), lim = t == "INT32" ? 0x1p31L : 0x1p63L;
    if (v < -lim || v >= lim) return std::nullopt;
    return t == "INT32" ? I((int32_t)v) : L((int64_t)v);
  }
  if (t == "FLOAT32") return n ? std::optional(F((float)*n)) : std::nullopt;
  if (t == "FLOAT64") return n ? std::optional(D((double)*n)) : std::nullopt;
  if (t == "BOOLEAN") return n && !str ? std::optional(B(*n != 0)) : std::nullopt;
  if (t == "MASK") return Is<Unit>(x) ? std::optional(x) : Is<bool>(x) ? std::optional(x.value<bool>() ? U() : N()) : std::nullopt;
  if (t == "STRING") {
    if (Is<Text>(x)) return x;
    if (Is<int32_t>(x)) return T(std::to_string(x.value<int32_t>()));
    if (Is<int64_t>(x)) return T(std::to_string(x.value<int64_t>()));
    if (Is<bool>(x)) return T(x.value<bool>() ? "true" : "false");
    if (Is<Unit>(x)) return T("present");
    if (n || Is<Bytes>(x)) { *any = true; return x; }
    return std::nullopt;
  }
  if (t == "BYTES") return Is<Bytes>(x) ? std::optional(x) : std::nullopt;
  if (t == "ITEMID" || t == "an entity schema") return id ? std::optional(x) : std::nullopt;
  if (t == "SCHEMA") return x.is_schema() ? std::optional(x) : std::nullopt;
  return std::nullopt;
}
void Check(const absl::StatusOr<DataSliceImpl>& got, const std::vector<std::optional<DataItem>>& want, const std::string& who) {
  ++g.reads;
  Items_ w; bool bad = false;
  for (auto& x : want) { bad |= !x; w.push_back(x.value_or(N())); }
  if (got.ok() == bad) Fail(who + (bad ? " must fail" : " fails: " + got.status().ToString()));
  if (!bad) EqSlice(*got, w, who);
}
Shard Casts() {
  std::vector<std::string> names;
  for (auto& x : Values()) names.push_back(Str(x));
  return {"casts", names, 3, [](const std::vector<int>& h, std::string* st) {
    Items_ v;
    for (int o : h) { v.push_back(Values()[o]); *st += std::to_string(o) + ","; }
    // Once more with many of the first.
    Items_ many = v;
    if (h.size() == 2) { many.assign(69, v[0]); many.push_back(v[1]); }
    const DataSliceImpl s = Slice(v), m = Slice(many);
    for (auto& t : Targets()) {
      const std::string who = "the cast of " + Str(v) + " to " + t.name;
      std::vector<std::optional<DataItem>> want;
      for (auto& x : v) {
        bool any = false;
        auto w = Cast(x, t.name, &any);
        if (any || h.size() == 1) {
          auto r = sc::CastDataTo(x, t.schema);
          ++g.reads;
          if (r.ok() != w.has_value()) Fail("the cast of " + Str(x) + " to " + t.name + (w ? " fails: " + r.status().ToString() : " must fail, is " + Str(*r)));
          if (any && !Is<Text>(*r)) Fail("the cast of " + Str(x) + " to STRING is " + Str(*r));
          if (any) w = *r;
          if (w) Eq(*r, *w, "the cast of " + Str(x) + " to " + t.name);
        }
        want.push_back(w);
      }
      Check(sc::CastDataTo(s, t.schema), want, who);
      if (h.size() == 2) { auto last = want[1]; want.assign(69, want[0]); want.push_back(last); Check(sc::CastDataTo(m, t.schema), want, who + ", many"); }
    }
    // Texts and bytes.
    for (const char* errors : {"strict", "ignore", "replace"}) {
      std::vector<std::optional<DataItem>> want;
      for (auto& x : v) want.push_back(!x.has_value() || Is<Text>(x) ? std::optional(x) : Is<Bytes>(x) ? std::optional(T(x.value<Bytes>())) : std::nullopt);
      std::string_view e = errors;
      Check(sc::Decode()(s, std::move(e)), want, "Decode of " + Str(v));
      if (v.size() == 1) { std::string_view e2 = errors; auto r = sc::Decode()(v[0], std::move(e2)); if (r.ok() != want[0].has_value() || r.ok() && !Same(*r, *want[0])) Fail("Decode of " + Str(v[0])); }
    }
    std::vector<std::optional<DataItem>> want;
    for (auto& x : v) want.push_back(!x.has_value() || Is<Bytes>(x) ? std::optional(x) : Is<Text>(x) ? std::optional(Y(x.value<Text>().view())) : std::nullopt);
    Check(sc::Encode()(s), want, "Encode of " + Str(v));
    if (v.size() == 1) { auto r = sc::Encode()(v[0]); if (r.ok() != want[0].has_value() || r.ok() && !Same(*r, *want[0])) Fail("Encode of " + Str(v[0])); }
    EqSlice(s, v, "the slice that was cast");
  }};
}

// Schemas given to objects.
Shard Objects(size_t size) {
  using namespace kd::internal;
  const auto A = Allocate(size);
  const ObjectId S = AllocateExplicitSchema(), S2 = AllocateExplicitSchema();
  const ObjectId one = AllocateSingleObject();
  auto vals = std::make_shared<Items_>(Items_{N(), O(A.ObjectByOffset(0)), O(A.ObjectByOffset(1)), O(A.ObjectByOffset(2)), O(one), O(A.ObjectByOffset(size - 1)), I(5), T("a"), DT(sc::kInt32)});
  const std::vector<std::pair<ObjectId, DataItem>> had{{A.ObjectByOffset(0), O(S)}, {A.ObjectByOffset(1), O(S2)}, {one, O(S)}};
  std::vector<std::string> names;
  for (auto& x : *vals) names.push_back(Str(x));
  return {"objects of an allocation of " + std::to_string(size), names, 3, [=](const std::vector<int>& h, std::string* st) {
    Items_ v;
    for (int o : h) { v.push_back((*vals)[o]); *st += std::to_string(o) + ","; }
    const DataSliceImpl s = Slice(v);
    for (auto& schema : {N(), O(S), O(S2), DT(sc::kInt32), DT(sc::kObject), DT(sc::kNone)}) for (bool validate : {true, false}) for (int with = 0; with < 3; ++with) for (int item = 0; item < (v.size() == 1 ? 2 : 1); ++item) {
      auto bag = DataBagImpl::CreateEmptyDatabag();
      std::map<ObjectId, DataItem> m;
      for (auto& [o, x] : had) { Ok(bag->SetAttr(O(o), sc::kSchemaAttr, x), "SetAttr"); m[o] = x; }
      if (with == 2) bag = bag->PartiallyPersistentFork();
      auto op = Ok(sc::ToObject::Make(schema, validate, with ? bag.get() : nullptr), "ToObject::Make");
      const absl::Status got = item ? op(v[0]) : op(s);
      bool bad = false; auto w = m;
      const bool entity = Is<ObjectId>(schema);
      for (auto& x : v) if (x.has_value()) {
        const bool id = Is<ObjectId>(x);
        auto it = id ? m.find(x.value<ObjectId>()) : m.end();
        if (entity) {
          bad |= !with || !id || validate && it != m.end() && !Same(it->second, schema);
          if (id) w[x.value<ObjectId>()] = schema;
        } else if (validate && id) bad |= !with || it == m.end();
      }
      ++g.reads;
      const std::string who = "ToObject(" + Str(schema) + (validate ? ", validated" : "") + ") of " + Str(v);
      if (got.ok() == bad) Fail(who + (bad ? " must fail" : " fails: " + got.ToString()));
      if (bad || !entity) w = m;
      for (auto& x : *vals) if (Is<ObjectId>(x)) {
        auto it = w.find(x.value<ObjectId>());
        Eq(Ok(bag->GetAttr(x, sc::kSchemaAttr), "GetAttr"), it == w.end() ? N() : it->second, "after " + who + ", the schema of " + Str(x));
      }
    }
    for (auto& x : {I(1), T("a"), vals->at(1)}) NotOk(sc::ToObject::Make(x), "ToObject with what is no schema");
    NotOk(sc::ToObject::Make(Ok(kd::schema::NoFollowSchemaItem(O(S)), "nofollow")), "ToObject with a nofollow schema");
  }};
}
}  // namespace

std::vector<Shard> Families() { return {Casts(), Objects(5), Objects(1000)}; }
}  // namespace drv
