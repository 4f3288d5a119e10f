// B06: the index, the content and the statistics of a DataBag show all of it.
#include "content.h"
#include "koladata/internal/triples.h"
namespace drv {
namespace {
using kd::internal::DataBagIndex;
struct Uni {
  AllocationId A = kd::internal::Allocate(4), H = kd::internal::Allocate(100), LA = kd::internal::AllocateLists(3), DA = kd::internal::AllocateDicts(3), SA = kd::internal::AllocateExplicitSchemas(3);
  ObjectId s0 = kd::internal::AllocateSingleObject(), s1 = kd::internal::AllocateSingleObject();
  ObjectId l = kd::internal::AllocateSingleList(), d = kd::internal::AllocateSingleDict(), sc = kd::internal::AllocateExplicitSchema();
  ObjectId a(int i) const { return A.ObjectByOffset(i); }
  ObjectId h(int i) const { return H.ObjectByOffset(i); }
  ObjectId la(int i) const { return LA.ObjectByOffset(i); }
  ObjectId da(int i) const { return DA.ObjectByOffset(i); }
  ObjectId sa(int i) const { return SA.ObjectByOffset(i); }
};
const Uni& U_() { static const Uni* u = new Uni; return *u; }
Items_ Os(std::vector<ObjectId> v) { Items_ r; for (auto o : v) r.push_back(O(o)); return r; }

template <typename F> Model Only(const Model& m, F keep) {
  Model r = m;
  std::erase_if(r.attrs, [&](auto& x) { return !keep(x.first.second, x.first.first); });
  std::erase_if(r.lists, [&](auto& x) { return !keep(x.first, ""); });
  std::erase_if(r.vague, [&](auto& x) { return !keep(x, ""); });
  std::erase_if(r.dicts, [&](auto& x) { return BigSchema(x.first) || !keep(x.first, ""); });
  for (auto& [o, d] : m.dicts) if (BigSchema(o)) for (auto& [k, v] : d) if (keep(o, k.template value<arolla::Text>().view())) r.dicts[o][k] = v;
  return r;
}
// Builds a bag from a content as the decoder of serialized bags does.
DataBagImplPtr Rebuild(const DataBagContent& c) {
  auto bag = DataBagImpl::CreateEmptyDatabag();
  for (auto& [a, x] : c.attrs) {
    for (auto& it : x.items) Ok(BigSchema(it.object_id) ? bag->SetSchemaAttr(O(it.object_id), a, it.value) : bag->SetAttr(O(it.object_id), a, it.value), "rebuild");
    for (auto& al : x.allocs) {
      if (!al.alloc_id.IsSchemasAlloc()) {
        // A slice without values and types stands for removed values here.
        DataSliceImpl v = al.values;
        if (v.present_count() == 0 && v.types_buffer().size() == 0) v = WithRemoved(std::vector<OptItem>(v.size(), OptItem(N())));
        Ok(bag->SetAttrFullAlloc(al.alloc_id, a, v), "rebuild");
      } else {
        std::vector<ObjectId> os; Items_ vs;
        auto& tb = al.values.types_buffer();
        for (size_t i = 0; i < al.values.size(); ++i) if (tb.size() == 0 || tb.id_to_typeidx[i] != TypesBuffer::kUnset) { os.push_back(al.alloc_id.ObjectByOffset(i)); vs.push_back(al.values[i]); }
        for (size_t i = 0; i < os.size(); ++i) if (vs[i].has_value()) Ok(bag->SetSchemaAttr(O(os[i]), a, vs[i]), "rebuild");
      }
    }
  }
  for (auto& l : c.lists) {
    auto sp = l.lists_to_values_edge.edge_values().values.span();
    for (size_t i = 0; i < l.unset_lists.size(); ++i) if (!l.unset_lists[i]) {
      Items_ v; for (int64_t j = sp[i]; j < sp[i + 1]; ++j) v.push_back(l.values[j]);
      Ok(bag->ExtendList(O(l.alloc_id.ObjectByOffset(i)), Slice(v)), "rebuild");
    }
  }
  for (auto& d : c.dicts) if (!d.dict_id.IsSchema()) Ok(bag->SetInDict(Slice(Items_(d.keys.size(), O(d.dict_id))), Slice(d.keys), Slice(d.values)), "rebuild");
    else if (d.dict_id.IsSmallAlloc()) for (size_t i = 0; i < d.keys.size(); ++i) { if (d.values[i].has_value()) Ok(bag->SetSchemaAttr(O(d.dict_id), std::string(d.keys[i].value<arolla::Text>().view()), d.values[i]), "rebuild"); }
  return bag;
}
void SortedOnce(const std::vector<AllocationId>& v, const std::string& who) {
  for (size_t i = 1; i < v.size(); ++i) if (!(v[i - 1] < v[i])) Fail(who + "the allocations of the index are not in order, or repeated");
}

void Check(const DataBagImpl& b, const Model& m, const std::string& who, bool forked) {
  auto idx = b.CreateIndex();
  SortedOnce(idx.lists, who); SortedOnce(idx.dicts, who);
  for (auto& [a, x] : idx.attrs) SortedOnce(x.allocations, who);
  auto in = [](const std::vector<AllocationId>& v, ObjectId o) { return std::find(v.begin(), v.end(), AllocationId(o)) != v.end(); };
  for (auto& [k, v] : m.attrs) {
    auto it = idx.attrs.find(k.first);
    if (it == idx.attrs.end() || !(k.second.IsSmallAlloc() ? it->second.with_small_allocs : in(it->second.allocations, k.second))) Fail(who + "the index lacks attribute " + k.first + " of " + Str(O(k.second)));
  }
  for (auto& [o, v] : m.lists) if (!in(idx.lists, o)) Fail(who + "the index lacks list " + Str(O(o)));
  for (auto& [o, v] : m.dicts) if (!v.empty() && !BigSchema(o) && !in(idx.dicts, o)) Fail(who + "the index lacks dict " + Str(O(o)));
  auto c = Ok(b.ExtractContent(), "ExtractContent");
  SameFacts(Told(c, who), m, who + "the content ");
  // In the order of the index.
  { size_t i = 0; for (auto& l : c.lists) { while (i < idx.lists.size() && !(idx.lists[i] == l.alloc_id)) ++i; if (i++ == idx.lists.size()) Fail(who + "lists are not in the order of the index"); } }
  { size_t i = 0; for (auto& d : c.dicts) { while (i < idx.dicts.size() && !(idx.dicts[i] == AllocationId(d.dict_id))) ++i; if (i == idx.dicts.size()) Fail(who + "dicts are not in the order of the index"); } }
  // Built anew.
  auto again = Rebuild(c);
  Model m2 = m;
  for (auto& [o, d] : m2.dicts) if (o.IsSchema()) std::erase_if(d, [](auto& x) { return !x.second.has_value(); });
  SameFacts(Told(Ok(again->ExtractContent(), "ExtractContent"), who), m2, who + "the content of a bag made from the content ");
  auto c2 = Ok(b.PartiallyPersistentFork()->ExtractContent(), "ExtractContent");
  SameFacts(Told(c2, who), m, who + "the content of a fork ");
  // Parts of it.
  for (auto& [a, x] : idx.attrs) {
    if (x.with_small_allocs) { DataBagIndex p; p.attrs[a].with_small_allocs = true;
      SameFacts(Told(Ok(b.ExtractContent(p), "ExtractContent"), who), Only(m, [&](ObjectId o, std::string_view n) { return n == a && o.IsSmallAlloc(); }), who + "the content of attribute " + a + " of small allocations "); }
    for (auto al : x.allocations) { DataBagIndex p; p.attrs[a].allocations = {al};
      SameFacts(Told(Ok(b.ExtractContent(p), "ExtractContent"), who), Only(m, [&](ObjectId o, std::string_view n) { return n == a && AllocationId(o) == al; }), who + "the content of attribute " + a + " of one allocation "); }
  }
  for (auto al : idx.lists) { DataBagIndex p; p.lists = {al};
    SameFacts(Told(Ok(b.ExtractContent(p), "ExtractContent"), who), Only(m, [&](ObjectId o, std::string_view n) { return n.empty() && AllocationId(o) == al; }), who + "the content of the lists of one allocation "); }
  for (auto al : idx.dicts) if (al.IsSmall() || !al.IsSchemasAlloc()) { DataBagIndex p; p.dicts = {al};
    SameFacts(Told(Ok(b.ExtractContent(p), "ExtractContent"), who), Only(m, [&](ObjectId o, std::string_view n) { return n.empty() && AllocationId(o) == al; }), who + "the content of the dicts of one allocation "); }
  auto& u = U_();
  for (auto al : {u.A, u.DA, u.SA}) { DataBagIndex p; p.lists = {al}; NotOk(b.ExtractContent(p), "ExtractContent of lists of another kind"); }
  for (auto al : {u.A, u.LA}) { DataBagIndex p; p.dicts = {al}; NotOk(b.ExtractContent(p), "ExtractContent of dicts of another kind"); }
  // As triples.
  kd::internal::debug::Triples t(c), t2(c2);
  if (!(t == t2) || !t.Subtract(t2).attributes().empty() || !t.Subtract(t2).dicts().empty() || !t.Subtract(t2).lists().empty()) Fail(who + "the triples of a fork differ");
  Model mt;
  for (size_t i = 0; i < t.attributes().size(); ++i) {
    auto& x = t.attributes()[i];
    if (i && !(std::make_pair(t.attributes()[i - 1].object, t.attributes()[i - 1].attribute) < std::make_pair(x.object, x.attribute))) Fail(who + "the attribute triples are not in order");
    if (BigSchema(x.object)) mt.dicts[x.object][T(x.attribute)] = x.value; else mt.attrs[{x.attribute, x.object}] = x.value;
  }
  for (auto& x : t.dicts()) if (!mt.dicts[x.object].insert({x.key, x.value}).second) Fail(who + "a dict triple is repeated");
  for (auto& [o, v] : t.lists()) mt.lists[o] = v;
  SameFacts(mt, m, who + "the set of triples ");
  // Statistics.
  auto st = Ok(b.GetStatistics(), "GetStatistics");
  size_t nl = 0, il = 0, nd = 0, id = 0, ss = 0, sa = 0; std::map<std::string, size_t> at;
  for (auto& [o, v] : m.lists) if (!v.empty()) { ++nl; il += v.size(); }
  for (auto& [o, d] : m.dicts) if (!d.empty() && !o.IsSchema()) { ++nd; id += d.size(); }
  for (auto& [o, d] : m.dicts) if (!d.empty() && o.IsSchema() && o.IsSmallAlloc()) { ++ss; sa += d.size(); }
  for (auto& [k, v] : m.attrs) at[k.first] += v.has_value();
  if (st.total_non_empty_lists != nl || st.total_items_in_lists != il || st.total_non_empty_dicts != nd || st.total_items_in_dicts != id) Fail(who + "the counts of lists and dicts in the statistics");
  if (!forked) for (auto& [a, n] : at) if (st.attr_values_sizes[a] != n) Fail(who + "the statistics count " + std::to_string(st.attr_values_sizes[a]) + " values of " + a + ", must be " + std::to_string(n));
  auto twice = st; twice.Add(st);
  if (twice.total_items_in_lists != 2 * il || twice.total_non_empty_lists != 2 * nl || twice.total_items_in_dicts != 2 * id || twice.total_non_empty_dicts != 2 * nd || twice.total_explicit_schemas != 2 * st.total_explicit_schemas || twice.total_explicit_schema_attrs != 2 * st.total_explicit_schema_attrs || twice.entity_and_object_count != 2 * st.entity_and_object_count) Fail(who + "statistics added to themselves");
  for (auto& [a, n] : st.attr_values_sizes) if (twice.attr_values_sizes[a] != 2 * n) Fail(who + "statistics added to themselves: " + a);
  const bool has = !m.attrs.empty() || !m.lists.empty() || std::any_of(m.dicts.begin(), m.dicts.end(), [](auto& x) { return !x.second.empty(); });
  if (has && (b.IsEmpty() || st.AllZero() && (nl || nd))) Fail(who + "a bag with content says it is empty");
}

Shard Make(std::string name, int depth, std::vector<Op> ops) {
  for (auto& op : {Fork(), Freeze()}) ops.push_back(op);
  auto sh = std::make_shared<std::vector<Op>>(std::move(ops));
  return {name, Names(*sh), depth, [=](const std::vector<int>& h, std::string* st) {
    World w;
    if (h.empty() && (!w.bag->IsEmpty() || !w.bag->IsPristine() || !Ok(w.bag->GetStatistics(), "GetStatistics").AllZero())) Fail("an empty bag says it is not");
    for (int o : h) (*sh)[o].second(w);
    Check(*w.bag, w.m, "", !w.olds.empty());
    for (size_t i = 0; i < w.olds.size(); ++i) Check(*w.olds[i].first, w.olds[i].second, "the bag left at fork " + std::to_string(i) + ": ", i > 0);
    *st = w.m.Digest();
  }};
}
}  // namespace

std::vector<Shard> Families() {
  auto& u = U_();
  const auto end = std::nullopt;
  Items_ A = Os({u.a(0), u.a(1), u.a(2), u.a(3)}), hs = Os({u.h(0), u.h(7), u.h(8), u.h(99)}), ss = Os({u.s0, u.s1});
  std::vector<OptItem> part(100), whole(100, OptItem(I(5)));
  part[0] = N(); part[7] = T("full"); whole[0] = I(1); whole[8] = N();
  std::vector<Op> attrs{
      SetItem("s0.a=1", u.s0, "a", I(1)), SetSlice("[s0,s1].a=[None,'x']", ss, "a", {N(), T("x")}), SetItem("a0.a=1", u.a(0), "a", I(1)), SetItem("a1.b=None", u.a(1), "b", N()),
      SetSlice("A.a=[2,3,None,4]", A, "a", {I(2), I(3), N(), I(4)}), SetSlice("[a1,a2,a3].a=['p',5,a0]", {A[1], A[2], A[3]}, "a", {T("p"), I(5), A[0]}), SetFull("full A.a=[6,7,8,9]", u.A, "a", {I(6), I(7), I(8), I(9)}),
      SetFull("full A.a=[unset,removed,'q',unset]", u.A, "a", {end, N(), T("q"), end}), SetFull("full A.a=[removed]*4", u.A, "a", {N(), N(), N(), N()}),
      SetItem("h0.a=1", u.h(0), "a", I(1)), SetSlice("[h0,h7,h8,h99].a=[10,None,'r',11]", hs, "a", {I(10), N(), T("r"), I(11)}), SetFull("full H.a=[removed,...,'full',...]", u.H, "a", part), SetFull("full H.a=[1,5,...,removed,5...]", u.H, "a", whole)};
  Items_ ls = Os({u.la(0), u.la(1), u.la(2)});
  std::vector<Op> lists{
      LAppend("l.append(1)", u.l, I(1)), LAppendN("append L [1,'a',None]", ls, {I(1), T("a"), N()}), LAppend("L2.append('z')", u.la(2), T("z")), LExtend("L0.extend([2,None])", u.la(0), {I(2), N()}), LReplace("L0[0:]=[]", u.la(0), 0, end, {}), LReplace("l[0:]=[]", u.l, 0, end, {}),
      LRemoveN("del L[-1:]", ls, -1, end), LPop("l.pop(0)", u.l, 0), LSet("L1[0]=a0", u.la(1), 0, O(u.a(0)))};
  Items_ ds = Os({u.da(0), u.da(1), u.da(2)});
  std::vector<Op> dicts{
      DSetOp("d[1]=1", u.d, I(1), I(1)), DSetOp("d['k']=None", u.d, T("k"), N()), DSetN("D[1,'k',1]=[1,'a',None]", ds, {I(1), T("k"), I(1)}, {I(1), T("a"), N()}), DSetOp("D0['k']=a0", u.da(0), T("k"), O(u.a(0))),
      DClearOp("clear d", u.d), DClearN("clear D", ds), DSetOp("D2[b'k']=2", u.da(2), Y("k"), I(2))};
  DataItem i32(kd::schema::kInt32), txt(kd::schema::kString);
  std::vector<Op> schemas{
      SSet("sc.a=INT32", u.sc, "a", i32), SSet("sc.b=sc", u.sc, "b", O(u.sc)), SDel("del sc.a", u.sc, "a"), SSetN("SA.a=[INT32,STRING,INT32]", {u.sa(0), u.sa(1), u.sa(2)}, "a", {i32, txt, i32}), SSet("SA1.a=INT32", u.sa(1), "a", i32), SSet("SA2.b=STRING", u.sa(2), "b", txt), SDel("del SA0.a", u.sa(0), "a"),
      SetItem("s0.a=1", u.s0, "a", I(1)), DSetOp("d['a']=1", u.d, T("a"), I(1))};
  std::vector<Op> mix{attrs[0], attrs[4], attrs[9], attrs[8], lists[1], lists[4], dicts[2], dicts[1], schemas[0], schemas[3]};
  return {Make("attributes", 3, attrs), Make("lists", 4, lists), Make("dicts", 4, dicts), Make("schemas", 4, schemas), Make("all", 3, mix)};
}
}  // namespace drv
