// B07: common schemas are least upper bounds; the schema of data is that of its values.
#include "bag.h"
#include "arolla/dense_array/edge.h"
#include "koladata/internal/errors.h"
#include "koladata/internal/op_utils/agg_common_schema.h"
#include "koladata/internal/schema_attrs.h"
#include "koladata/internal/schema_utils.h"
#include "koladata/internal/uuid_object.h"
namespace drv {
namespace {
namespace schema = kd::schema;
using schema::DType;
struct Atom { std::string name; DataItem v; };
struct Uni {
  ObjectId e1 = kd::internal::AllocateExplicitSchema(), x = kd::internal::AllocateSingleObject();
  AllocationId SA = kd::internal::AllocateExplicitSchemas(5), OA = kd::internal::Allocate(4);
  ObjectId e2 = SA.ObjectByOffset(1), e3 = SA.ObjectByOffset(2);
  ObjectId imp = Ok(kd::internal::CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(O(x), schema::kImplicitSchemaSeed), "implicit").value<ObjectId>();
  ObjectId nf = kd::internal::CreateNoFollowWithMainObject(e1);
  std::vector<Atom> dtypes, objs;
  Uni() {
    for (auto [n, d] : std::initializer_list<std::pair<const char*, DType>>{{"NONE", schema::kNone}, {"INT32", schema::kInt32}, {"INT64", schema::kInt64}, {"FLOAT32", schema::kFloat32}, {"FLOAT64", schema::kFloat64}, {"MASK", schema::kMask}, {"BOOLEAN", schema::kBool}, {"BYTES", schema::kBytes}, {"STRING", schema::kString}, {"EXPR", schema::kExpr}, {"OBJECT", schema::kObject}, {"ITEMID", schema::kItemId}, {"SCHEMA", schema::kSchema}})
      dtypes.push_back({n, DataItem(d)});
    objs = {{"E1", O(e1)}, {"E2", O(e2)}, {"E3", O(e3)}, {"implicit", O(imp)}, {"nofollow(E1)", O(nf)}, {"nofollow(OBJECT)", O(ObjectId::NoFollowObjectSchemaId())}};
  }
  std::string name(const DataItem& v) const {
    for (auto* l : {&dtypes, &objs}) for (auto& a : *l) if (Same(a.v, v)) return a.name;
    return Str(v);
  }
};
const Uni& U_() { static const Uni* u = new Uni; return *u; }
bool IsSchema(const DataItem& v) { return v.holds_value<DType>() || (v.holds_value<ObjectId>() && v.value<ObjectId>().IsSchema()); }

// The lattice, as documented: the least upper bound; nullopt if there is none.
int Rank(const DataItem& v) {
  if (!v.holds_value<DType>()) return 0;
  DType d = v.value<DType>();
  return d == schema::kInt32 ? 1 : d == schema::kInt64 ? 2 : d == schema::kFloat32 ? 3 : d == schema::kFloat64 ? 4 : 0;
}
bool BelowObject(const DataItem& v) {
  if (!v.holds_value<DType>()) return false;
  DType d = v.value<DType>();
  return d != schema::kItemId && d != schema::kSchema;
}
std::optional<DataItem> Lub(const DataItem& a, const DataItem& b) {
  if (!a.has_value() || Same(a, b)) return b;
  if (!b.has_value()) return a;
  if (Same(a, DataItem(schema::kNone))) return b;
  if (Same(b, DataItem(schema::kNone))) return a;
  if (Rank(a) && Rank(b)) return Rank(a) > Rank(b) ? a : b;
  if (BelowObject(a) && BelowObject(b)) return DataItem(schema::kObject);
  return std::nullopt;
}
// Of a multiset; `bad`: a value is not a schema, or there is no bound.
struct Sup {
  DataItem v; bool bad = false, invalid = false;
  void Add(const DataItem& x) {
    if (!x.has_value()) return;
    if (!IsSchema(x)) { bad = invalid = true; return; }
    if (bad) return;
    auto l = Lub(v, x);
    if (l) v = *l; else bad = true;
  }
};
void Expect(const absl::StatusOr<DataItem>& got, const Sup& want, const std::string& what) {
  ++g.reads;
  if (want.bad) {
    if (got.ok()) Fail(what + " = " + U_().name(*got) + ", must fail");
    auto* p = arolla::GetPayload<kd::internal::NoCommonSchemaError>(got.status());
    if (!want.invalid && !p) Fail(what + " fails for another reason: " + got.status().ToString());
    if (p && Lub(p->common_schema, p->conflicting_schema)) Fail(what + ": the error names " + U_().name(p->common_schema) + " and " + U_().name(p->conflicting_schema) + ", which have a common schema");
    return;
  }
  if (!got.ok()) Fail(what + " fails: " + got.status().ToString() + ", must be " + U_().name(want.v));
  if (!Same(*got, want.v)) Fail(what + " = " + U_().name(*got) + ", must be " + U_().name(want.v));
}

Shard Common(std::string name, int depth, std::vector<Atom> atoms) {
  std::vector<std::string> names;
  for (auto& a : atoms) names.push_back(a.name);
  return {name, names, depth, [=](const std::vector<int>& h, std::string* st) {
    schema::CommonSchemaAggregator agg, typed;
    Sup s; Items_ all;
    for (int o : h) {
      const DataItem& v = atoms[o].v;
      agg.Add(v);
      if (v.holds_value<DType>()) typed.Add(v.value<DType>()); else if (v.holds_value<ObjectId>()) typed.Add(v.value<ObjectId>()); else typed.Add(v);
      s.Add(v); all.push_back(v);
    }
    Expect(std::move(agg).Get(), s, "the aggregated schema");
    Expect(std::move(typed).Get(), s, "the schema aggregated by type");
    Expect(schema::CommonSchema(Slice(all)), s, "CommonSchema(slice)");
    Items_ gaps; for (auto& v : all) { gaps.push_back(N()); gaps.push_back(v); }
    Expect(schema::CommonSchema(Slice(gaps)), s, "CommonSchema(slice with missing)");
    if (h.size() == 1) Expect(schema::CommonSchema(all[0]), s, "CommonSchema(item)");
    if (h.size() == 2) {
      Expect(schema::CommonSchema(all[0], all[1]), s, "CommonSchema(a, b)");
      if (all[0].holds_value<DType>() && all[1].holds_value<DType>()) Expect(schema::CommonSchema(all[0].value<DType>(), all[1].value<DType>()), s, "CommonSchema(dtype, dtype)");
      if (IsSchema(all[0]) && IsSchema(all[1])) {
        ++g.reads;
        auto l = Lub(all[0], all[1]);
        if (schema::IsImplicitlyCastableTo(all[0], all[1]) != (l && Same(*l, all[1]))) Fail("IsImplicitlyCastableTo(" + atoms[h[0]].name + ", " + atoms[h[1]].name + ") is wrong");
      }
    }
    if (h.size() == 1 && all[0].has_value() && IsSchema(all[0])) {
      const DataItem& v = all[0];
      const bool object = Same(v, DataItem(schema::kObject)), nofollow = v.holds_value<ObjectId>() && v.value<ObjectId>().IsNoFollowSchema();
      auto w = schema::NoFollowSchemaItem(v);
      if (w.ok() != (object || (v.holds_value<ObjectId>() && !nofollow))) Fail("NoFollowSchemaItem(" + atoms[h[0]].name + ")" + (w.ok() ? " must fail" : " fails"));
      if (w.ok()) {
        if (!w->holds_value<ObjectId>() || !w->value<ObjectId>().IsNoFollowSchema() || !w->value<ObjectId>().IsSchema()) Fail("NoFollowSchemaItem(" + atoms[h[0]].name + ") is not a nofollow schema");
        Eq(Ok(schema::GetNoFollowedSchemaItem(*w), "GetNoFollowedSchemaItem"), v, "the followed schema");
        Sup t; t.Add(*w); t.Add(v);
        Expect(schema::CommonSchema(*w, v), t, "CommonSchema(nofollow, followed)");
      }
      auto r = schema::GetNoFollowedSchemaItem(v);
      if (r.ok() != nofollow) Fail("GetNoFollowedSchemaItem(" + atoms[h[0]].name + ")" + (r.ok() ? " must fail" : " fails"));
      const bool keys = !(Same(v, DataItem(schema::kFloat32)) || Same(v, DataItem(schema::kFloat64)) || Same(v, DataItem(schema::kExpr)));
      if (schema::VerifyDictKeySchema(v).ok() != keys) Fail("VerifyDictKeySchema(" + atoms[h[0]].name + ")");
    }
    *st = s.bad ? "bad" : Str(s.v);
  }};
}

// Of the groups of an edge: "|" starts the next group.
Shard Groups(std::string name, int depth, std::vector<Atom> atoms) {
  std::vector<std::string> names{"|"};
  for (auto& a : atoms) names.push_back(a.name);
  return {name, names, depth, [=](const std::vector<int>& h, std::string* st) {
    std::vector<int64_t> splits{0}, map;
    Items_ all; std::vector<Sup> want(1);
    for (int o : h) {
      if (o == 0) { splits.push_back(all.size()); want.emplace_back(); continue; }
      all.push_back(atoms[o - 1].v); want.back().Add(all.back()); map.push_back(splits.size() - 1);
    }
    splits.push_back(all.size());
    auto check = [&](const arolla::DenseArrayEdge& e, const Items_& vals, const std::vector<Sup>& w, const char* who) {
      ++g.reads;
      auto r = kd::internal::AggCommonSchemaOp(Slice(vals), e);
      bool bad = false; Items_ res;
      for (auto& s : w) { bad |= s.bad; res.push_back(s.v); }
      if (r.ok() == bad) Fail(std::string(who) + (bad ? " must fail" : " fails: " + r.status().ToString()));
      if (!bad) EqSlice(*r, res, who);
    };
    check(*arolla::DenseArrayEdge::FromSplitPoints(arolla::CreateFullDenseArray(splits)), all, want, "the schemas of the groups");
    // The same groups, interleaved, as a mapping.
    std::vector<size_t> order(all.size());
    for (size_t i = 0; i < order.size(); ++i) order[i] = i;
    std::stable_sort(order.begin(), order.end(), [](size_t a, size_t b) { return a % 2 > b % 2; });
    std::vector<int64_t> m; Items_ v;
    for (size_t i : order) { m.push_back(map[i]); v.push_back(all[i]); }
    check(*arolla::DenseArrayEdge::FromMapping(arolla::CreateFullDenseArray(m), want.size()), v, want, "the schemas of the groups of a mapping");
    for (auto& s : want) *st += s.bad ? "bad|" : Str(s.v) + "|";
  }};
}

// The schema of a slice of values.
Shard Data(std::string name, int depth) {
  auto& u = U_();
  const AllocationId OA = u.OA;
  struct V { std::string name; DataItem v; DataItem schema, in_fallback; };  // of objects: what the bags say
  std::vector<V> vs{{"1", I(1)}, {"2l", L(2)}, {"1.5f", F(1.5)}, {"2.5", D(2.5)}, {"'x'", T("x")}, {"b'x'", Y("x")}, {"true", B(true)}, {"unit", U()}, {"missing", N()}, {"STRING", DataItem(schema::kString)},
    {"o:E1", O(u.x), O(u.e1), O(u.e1)}, {"o0:E1", O(OA.ObjectByOffset(0)), O(u.e1), O(u.e1)}, {"o1:E2", O(OA.ObjectByOffset(1)), O(u.e2), O(u.e2)}, {"o2:fallback E1", O(OA.ObjectByOffset(2)), N(), O(u.e1)}, {"o3", O(OA.ObjectByOffset(3)), N(), N()}};
  std::vector<std::string> names;
  for (auto& v : vs) names.push_back(v.name);
  auto bag = DataBagImpl::CreateEmptyDatabag(), fb = DataBagImpl::CreateEmptyDatabag();
  for (auto& v : vs) {
    if (v.schema.has_value()) Ok(bag->SetAttr(v.v, schema::kSchemaAttr, v.schema), "set");
    else if (v.in_fallback.has_value()) Ok(fb->SetAttr(v.v, schema::kSchemaAttr, v.in_fallback), "set");
  }
  return {name, names, depth, [=](const std::vector<int>& h, std::string* st) {
    Items_ all;
    for (int o : h) all.push_back(vs[o].v);
    const DataBagImpl* f = fb.get();
    for (int mode = 0; mode < 3; ++mode) {  // no bag; a bag; a bag with a fallback
      auto schema_of = [&](const V& v) -> DataItem {
        if (!v.v.has_value()) return DataItem(schema::kNone);
        if (v.v.holds_value<ObjectId>()) return mode == 0 ? N() : mode == 1 ? v.schema : v.in_fallback;
        if (v.v.holds_value<DType>()) return DataItem(schema::kSchema);
        return DataItem(v.v.holds_value<int32_t>() ? schema::kInt32 : v.v.holds_value<int64_t>() ? schema::kInt64 : v.v.holds_value<float>() ? schema::kFloat32 : v.v.holds_value<double>() ? schema::kFloat64 : v.v.holds_value<bool>() ? schema::kBool : v.v.holds_value<arolla::Unit>() ? schema::kMask : v.v.holds_value<arolla::Text>() ? schema::kString : schema::kBytes);
      };
      Sup s; bool unknown = false;
      s.Add(DataItem(schema::kNone));
      for (int o : h) { auto x = schema_of(vs[o]); if (x.has_value()) s.Add(x); else unknown = true; }
      const DataItem want = unknown || s.bad ? N() : s.v;
      auto fbs = mode == 2 ? DataBagImpl::FallbackSpan(&f, 1) : DataBagImpl::FallbackSpan();
      const DataBagImpl* b = mode ? bag.get() : nullptr;
      const std::string in = mode == 0 ? " without a bag" : mode == 1 ? " in a bag" : " in a bag with a fallback";
      auto got = schema::GetDataSchema(Slice(all), b, fbs);
      ++g.reads;
      if (!Same(got, want)) Fail("GetDataSchema(slice)" + in + " = " + U_().name(got) + ", must be " + U_().name(want));
      if (h.size() == 1) {
        got = schema::GetDataSchema(all[0], b, fbs);
        if (!Same(got, want)) Fail("GetDataSchema(item)" + in + " = " + U_().name(got) + ", must be " + U_().name(want));
      }
      if (mode == 2) *st = Str(want);
    }
  }};
}
}  // namespace

std::vector<Shard> Families() {
  auto& u = U_();
  std::vector<Atom> all = u.dtypes;
  all.insert(all.end(), u.objs.begin(), u.objs.end());
  auto schemas = all;
  all.push_back({"missing", N()}); all.push_back({"7", I(7)}); all.push_back({"an object", O(u.x)});
  std::vector<Atom> some{all[0], all[1], all[3], all[8], all[10], all[11], all[13], all[14], all[all.size() - 3], all[all.size() - 2]};
  return {Common("all", 4, all), Common("dtypes", 5, u.dtypes), Groups("groups", 5, some), Groups("all groups", 3, all), Data("data", 4)};
}
}  // namespace drv
