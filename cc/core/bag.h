// The reference model of a DataBag, operations on bag and model, and reads.
#ifndef VERIF_CORE_BAG_H_
#define VERIF_CORE_BAG_H_
#include <algorithm>
#include <deque>
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "koladata/internal/data_bag.h"
#include "koladata/internal/types_buffer.h"
#include "drv.h"

namespace drv {
using kd::internal::DataBagImpl;
using kd::internal::DataBagImplConstPtr;
using kd::internal::DataBagImplPtr;
using kd::internal::TypesBuffer;
using Items_ = std::vector<DataItem>;
using OptItem = std::optional<DataItem>;  // nullopt: unset; missing item: removed

// Integers of the two types are equal as keys.
inline std::string KeyStr(const DataItem& k) { return k.holds_value<int32_t>() ? Str(DataItem(int64_t{k.value<int32_t>()})) : Str(k); }
struct LessItem { bool operator()(const DataItem& a, const DataItem& b) const { return KeyStr(a) < KeyStr(b); } };

struct Model {
  std::map<std::pair<std::string, ObjectId>, DataItem> attrs;  // missing: removed
  std::map<ObjectId, Items_> lists;                            // present: set
  std::set<ObjectId> vague;  // lists only touched by operations without effect
  std::map<ObjectId, std::map<DataItem, DataItem, LessItem>> dicts;
  bool frozen = false;

  std::string Digest() const {
    std::string r = frozen ? "F" : "";
    for (auto& [k, v] : attrs) r += k.first + Str(DataItem(k.second)) + Str(v) + ";";
    for (auto& [k, v] : lists) r += Str(DataItem(k)) + Str(v) + ";";
    for (auto& [k, v] : dicts) { r += Str(DataItem(k)); for (auto& [a, b] : v) r += Str(a) + ":" + Str(b) + ","; }
    return r;
  }
  OptItem Attr(ObjectId o, const std::string& a) const {
    auto it = attrs.find({a, o});
    return it == attrs.end() ? OptItem() : OptItem(it->second);
  }
};

// A bag seen through others: the first that knows decides.
using Stack = std::vector<const Model*>;
inline OptItem Attr(const Stack& s, ObjectId o, const std::string& a) {
  for (auto* m : s) if (auto v = m->Attr(o, a)) return v;
  return std::nullopt;
}
inline const Items_* List(const Stack& s, ObjectId o) {
  for (auto* m : s) if (auto it = m->lists.find(o); it != m->lists.end()) return &it->second;
  return nullptr;
}
inline bool Vague(const Stack& s, ObjectId o) {
  for (auto* m : s) { if (m->lists.count(o)) return false; if (m->vague.count(o)) return true; }
  return false;
}
inline std::map<DataItem, DataItem, LessItem> DictOf(const Stack& s, ObjectId o) {
  std::map<DataItem, DataItem, LessItem> r;
  for (auto* m : s) if (auto it = m->dicts.find(o); it != m->dicts.end()) r.insert(it->second.begin(), it->second.end());
  return r;
}
inline bool BadKey(const DataItem& k) { return !k.has_value() || k.holds_value<float>() || k.holds_value<double>(); }

struct Capture { std::string what; DataSliceImpl slice; Items_ items; };

struct World {
  DataBagImplPtr bag = DataBagImpl::CreateEmptyDatabag();
  Model m;
  std::vector<std::pair<DataBagImplPtr, Model>> olds;
  std::vector<Capture> captured;
};
using Op = std::pair<std::string, std::function<void(World&)>>;

// Runs a mutation: it must succeed and change the model, or, on a frozen bag,
// fail and change nothing.
template <typename Do, typename Change>
void Mutate(World& w, const char* what, Do&& go, Change&& change) {
  absl::Status s = go();
  if (w.m.frozen) { if (s.ok()) Fail(std::string(what) + " succeeds on a frozen bag"); return; }
  Ok(s, what);
  change();
}

// ---- Attributes.
inline Op SetItem(std::string n, ObjectId o, std::string a, DataItem v) {
  return {n, [=](World& w) {
    Mutate(w, "SetAttr", [&] { return w.bag->SetAttr(O(o), a, v); }, [&] { w.m.attrs[{a, o}] = v; });
  }};
}
inline Op SetSlice(std::string n, Items_ os, std::string a, Items_ vs) {
  auto so = Slice(os), sv = Slice(vs);
  return {n, [=](World& w) {
    Mutate(w, "SetAttr", [&] { return w.bag->SetAttr(so, a, sv); },
           [&] { for (size_t i = 0; i < os.size(); ++i) if (os[i].has_value()) w.m.attrs[{a, os[i].value<ObjectId>()}] = vs[i]; });
  }};
}
// vs: nullopt is unset, a missing item is removed.
inline DataSliceImpl WithRemoved(const std::vector<OptItem>& vs) {
  kd::internal::SliceBuilder b(vs.size());
  for (size_t i = 0; i < vs.size(); ++i) if (vs[i]) b.InsertIfNotSetAndUpdateAllocIds(i, *vs[i]);
  return std::move(b).Build();
}
inline Op SetFull(std::string n, AllocationId al, std::string a, std::vector<OptItem> vs) {
  auto sv = WithRemoved(vs);
  return {n, [=](World& w) {
    Mutate(w, "SetAttrFullAlloc", [&] { return w.bag->SetAttrFullAlloc(al, a, sv); },
           [&] { for (size_t i = 0; i < vs.size(); ++i) if (vs[i]) w.m.attrs[{a, al.ObjectByOffset(i)}] = *vs[i]; });
  }};
}
inline Op Freeze() { return {"Freeze()", [](World& w) { w.bag->Freeze(); w.m.frozen = true; }}; }
inline Op Fork() {
  return {"Fork()", [](World& w) {
    w.olds.emplace_back(w.bag, w.m);
    w.bag = w.bag->PartiallyPersistentFork();
    w.m.frozen = false;
    if (w.bag->IsFrozen()) Fail("a fork is frozen");
  }};
}
inline Op CaptureAttr(std::string n, std::vector<ObjectId> os, std::string a) {
  auto so = Slice(os);
  return {n, [=](World& w) {
    auto s = Ok(w.bag->GetAttr(so, a), "GetAttr");
    w.captured.push_back({n, s, Items(s)});
  }};
}

inline void EqWithRemoved(const DataSliceImpl& got, const std::vector<OptItem>& want, const std::string& what) {
  Items_ plain;
  for (auto& x : want) plain.push_back(x.value_or(DataItem()));
  EqSlice(got, plain, what);
  const auto& tb = got.types_buffer();
  for (size_t i = 0; i < want.size(); ++i) {
    bool unset = tb.size() != 0 && tb.id_to_typeidx[i] == TypesBuffer::kUnset;
    if (unset != !want[i].has_value()) Fail(what + ": element " + std::to_string(i) + (unset ? " is unset, must be set or removed" : " is set or removed, must be unset"));
  }
}
inline std::vector<const DataBagImpl*> Ptrs(const std::vector<const DataBagImpl*>& v) { return v; }

inline void ReadAttrs(const DataBagImpl& bag, const Stack& s, const std::vector<const DataBagImpl*>& fb,
                      const std::vector<Items_>& slices, const std::vector<std::string>& names, const std::string& who) {
  std::set<ObjectId> seen;
  for (auto& a : names) {
    seen.clear();
    for (auto& os : slices) {
      Items_ want; std::vector<OptItem> wantr;
      for (auto& o : os) {
        OptItem v = o.has_value() ? Attr(s, o.value<ObjectId>(), a) : OptItem(DataItem());
        wantr.push_back(v); want.push_back(v.value_or(DataItem()));
        if (o.has_value() && seen.insert(o.value<ObjectId>()).second) {
          Eq(Ok(bag.GetAttr(o, a, fb), "GetAttr"), want.back(), who + "GetAttr(" + Str(o) + ", " + a + ")");
          auto r = bag.GetAttrWithRemoved(o.value<ObjectId>(), a, fb);
          ++g.reads;
          if (r.has_value() != v.has_value()) Fail(who + "GetAttrWithRemoved(" + Str(o) + ", " + a + ") is " + (r ? Str(*r) : "unset") + ", must be " + (v ? Str(*v) : "unset"));
          if (r) Eq(*r, *v, who + "GetAttrWithRemoved(" + Str(o) + ", " + a + ")");
        }
      }
      auto so = Slice(os);
      EqSlice(Ok(bag.GetAttr(so, a, fb), "GetAttr"), want, who + "GetAttr(" + Str(os) + ", " + a + ")");
      if (so.present_count()) EqWithRemoved(Ok(bag.GetAttrWithRemoved(so, a, fb), "GetAttrWithRemoved"), wantr, who + "GetAttrWithRemoved(" + Str(os) + ", " + a + ")");
    }
  }
}

// ---- Lists.
using Range = DataBagImpl::ListRange;
inline Items_ Sub(const Items_& l, int64_t from, std::optional<int64_t> to) {
  int64_t n = l.size();
  auto norm = [&](int64_t i) { return std::min(n, std::max<int64_t>(0, i < 0 ? i + n : i)); };
  int64_t f = norm(from), t = to ? norm(*to) : n;
  return f < t ? Items_(l.begin() + f, l.begin() + t) : Items_();
}
inline void Splice(Items_& l, int64_t from, std::optional<int64_t> to, const Items_& v) {
  int64_t n = l.size();
  auto norm = [&](int64_t i) { return std::min(n, std::max<int64_t>(0, i < 0 ? i + n : i)); };
  int64_t f = norm(from), t = to ? norm(*to) : n;
  t = std::max(f, t);
  l.erase(l.begin() + f, l.begin() + t);
  l.insert(l.begin() + f, v.begin(), v.end());
}
// The list, made known: `definite` if the operation leaves it set for certain.
inline Items_& Touch(Model& m, ObjectId o, bool definite) {
  static Items_ scratch;
  if (definite || m.lists.count(o)) { m.vague.erase(o); return m.lists[o]; }
  m.vague.insert(o);
  scratch.clear();
  return scratch;
}
inline arolla::DenseArray<int64_t> Ints(const std::vector<std::optional<int64_t>>& v) {
  arolla::DenseArrayBuilder<int64_t> b(v.size());
  for (size_t i = 0; i < v.size(); ++i) if (v[i]) b.Set(i, *v[i]);
  return std::move(b).Build();
}
inline arolla::DenseArrayEdge Edge(const std::vector<Items_>& groups) {
  std::vector<int64_t> sp{0};
  for (auto& x : groups) sp.push_back(sp.back() + x.size());
  return *arolla::DenseArrayEdge::FromSplitPoints({arolla::Buffer<int64_t>::Create(std::move(sp))});
}
inline Items_ Flat(const std::vector<Items_>& groups) {
  Items_ r;
  for (auto& x : groups) r.insert(r.end(), x.begin(), x.end());
  return r;
}
inline ObjectId Id(const DataItem& x) { return x.value<ObjectId>(); }

inline Op LAppend(std::string n, ObjectId o, DataItem v) {
  return {n, [=](World& w) { Mutate(w, "AppendToList", [&] { return w.bag->AppendToList(O(o), v); }, [&] { Touch(w.m, o, true).push_back(v); }); }};
}
inline Op LAppendN(std::string n, Items_ os, Items_ vs) {
  return {n, [=](World& w) { Mutate(w, "AppendToList", [&] { return w.bag->AppendToList(Slice(os), Slice(vs)); },
    [&] { for (size_t i = 0; i < os.size(); ++i) if (os[i].has_value()) Touch(w.m, Id(os[i]), true).push_back(vs[i]); }); }};
}
inline Op LExtend(std::string n, ObjectId o, Items_ vs) {
  return {n, [=](World& w) { Mutate(w, "ExtendList", [&] { return w.bag->ExtendList(O(o), Slice(vs)); },
    [&] { auto& l = Touch(w.m, o, !vs.empty()); l.insert(l.end(), vs.begin(), vs.end()); }); }};
}
inline Op LExtendN(std::string n, Items_ os, std::vector<Items_> vs) {
  return {n, [=](World& w) { Mutate(w, "ExtendLists", [&] { return w.bag->ExtendLists(Slice(os), Slice(Flat(vs)), Edge(vs)); },
    [&] { for (size_t i = 0; i < os.size(); ++i) if (os[i].has_value()) { auto& l = Touch(w.m, Id(os[i]), !vs[i].empty()); l.insert(l.end(), vs[i].begin(), vs[i].end()); } }); }};
}
inline Op LSet(std::string n, ObjectId o, int64_t i, DataItem v) {
  return {n, [=](World& w) { Mutate(w, "SetInList", [&] { return w.bag->SetInList(O(o), i, v); },
    [&] { auto& l = Touch(w.m, o, false); int64_t k = i < 0 ? i + (int64_t)l.size() : i; if (k >= 0 && k < (int64_t)l.size()) l[k] = v; }); }};
}
inline Op LSetN(std::string n, Items_ os, std::vector<std::optional<int64_t>> is, Items_ vs) {
  return {n, [=](World& w) { Mutate(w, "SetInLists", [&] { return w.bag->SetInLists(Slice(os), Ints(is), Slice(vs)); },
    [&] { for (size_t j = 0; j < os.size(); ++j) if (os[j].has_value() && is[j]) { auto& l = Touch(w.m, Id(os[j]), false);
      int64_t k = *is[j] < 0 ? *is[j] + (int64_t)l.size() : *is[j]; if (k >= 0 && k < (int64_t)l.size()) l[k] = vs[j]; } }); }};
}
inline Op LReplace(std::string n, ObjectId o, int64_t f, std::optional<int64_t> t, Items_ vs) {
  return {n, [=](World& w) { Mutate(w, "ReplaceInList", [&] { return w.bag->ReplaceInList(O(o), Range(f, t), Slice(vs)); },
    [&] { Splice(Touch(w.m, o, true), f, t, vs); }); }};
}
inline Op LReplaceN(std::string n, Items_ os, int64_t f, std::optional<int64_t> t, std::vector<Items_> vs) {
  return {n, [=](World& w) { Mutate(w, "ReplaceInLists", [&] { return w.bag->ReplaceInLists(Slice(os), Range(f, t), Slice(Flat(vs)), Edge(vs)); },
    [&] { for (size_t i = 0; i < os.size(); ++i) if (os[i].has_value()) Splice(Touch(w.m, Id(os[i]), true), f, t, vs[i]); }); }};
}
inline Op LRemove(std::string n, ObjectId o, int64_t f, std::optional<int64_t> t) {
  return {n, [=](World& w) { Mutate(w, "RemoveInList", [&] { return w.bag->RemoveInList(O(o), Range(f, t)); },
    [&] { Splice(Touch(w.m, o, false), f, t, {}); }); }};
}
inline Op LRemoveN(std::string n, Items_ os, int64_t f, std::optional<int64_t> t) {
  return {n, [=](World& w) { Mutate(w, "RemoveInList", [&] { return w.bag->RemoveInList(Slice(os), Range(f, t)); },
    [&] { for (auto& o : os) if (o.has_value()) Splice(Touch(w.m, Id(o), false), f, t, {}); }); }};
}
inline Op LRemoveIdx(std::string n, Items_ os, std::vector<std::optional<int64_t>> is) {
  return {n, [=](World& w) { Mutate(w, "RemoveInList", [&] { return w.bag->RemoveInList(Slice(os), Ints(is)); },
    [&] { for (size_t j = 0; j < os.size(); ++j) if (os[j].has_value() && is[j]) { auto& l = Touch(w.m, Id(os[j]), false);
      int64_t k = *is[j] < 0 ? *is[j] + (int64_t)l.size() : *is[j]; if (k >= 0 && k < (int64_t)l.size()) l.erase(l.begin() + k); } }); }};
}
inline Op LPop(std::string n, ObjectId o, int64_t i) {
  return {n, [=](World& w) {
    DataItem got;
    Mutate(w, "PopFromList", [&] { auto r = w.bag->PopFromList(O(o), i); if (r.ok()) got = *r; return r.status(); },
      [&] { auto& l = Touch(w.m, o, false); int64_t k = i < 0 ? i + (int64_t)l.size() : i; DataItem want;
            if (k >= 0 && k < (int64_t)l.size()) { want = l[k]; l.erase(l.begin() + k); }
            Eq(got, want, "PopFromList"); }); }};
}
inline Op LPopN(std::string n, Items_ os, std::vector<std::optional<int64_t>> is) {
  return {n, [=](World& w) {
    DataSliceImpl got;
    Mutate(w, "PopFromLists", [&] { auto r = w.bag->PopFromLists(Slice(os), Ints(is)); if (r.ok()) got = *r; return r.status(); },
      [&] { Items_ want(os.size());
        for (size_t j = 0; j < os.size(); ++j) if (os[j].has_value() && is[j]) { auto& l = Touch(w.m, Id(os[j]), false);
          int64_t k = *is[j] < 0 ? *is[j] + (int64_t)l.size() : *is[j]; if (k >= 0 && k < (int64_t)l.size()) { want[j] = l[k]; l.erase(l.begin() + k); } }
        EqSlice(got, want, "PopFromLists"); }); }};
}
inline Op CaptureList(std::string n, ObjectId o) {
  return {n, [=](World& w) { auto s = Ok(w.bag->ExplodeList(O(o)), "ExplodeList"); w.captured.push_back({n, s, Items(s)}); }};
}

struct RangeSpec { int64_t from; std::optional<int64_t> to; };
inline const std::vector<RangeSpec>& Ranges() {
  static const std::vector<RangeSpec> r{{0, std::nullopt}, {1, std::nullopt}, {-1, std::nullopt}, {-2, -1}, {0, 2}, {1, 2}, {-100, 100}, {2, 1}, {5, 7}, {1, -1}};
  return r;
}
inline void ReadLists(const DataBagImpl& bag, const Stack& s, const std::vector<const DataBagImpl*>& fb,
                      const std::vector<Items_>& slices, const std::string& who) {
  std::set<ObjectId> seen;
  for (auto& all : slices) {
    Items_ os;
    for (auto& o : all) if (!o.has_value() || s.size() == 1 || !Vague(s, Id(o))) os.push_back(o); else os.push_back(N());
    static const Items_ none;
    auto get = [&](const DataItem& o) -> const Items_& { auto* l = o.has_value() ? List(s, Id(o)) : nullptr; return l ? *l : none; };
    for (auto& o : os) if (o.has_value() && seen.insert(Id(o)).second) {
      const Items_& l = get(o);
      const std::string id = who + "list " + Str(o) + ": ";
      Eq(Ok(bag.GetListSize(o, fb), "GetListSize"), L(l.size()), id + "GetListSize");
      for (int64_t i = -(int64_t)l.size() - 1; i <= (int64_t)l.size(); ++i) {
        int64_t k = i < 0 ? i + (int64_t)l.size() : i;
        Eq(Ok(bag.GetFromList(o, i, fb), "GetFromList"), k >= 0 && k < (int64_t)l.size() ? l[k] : N(), id + "GetFromList(" + std::to_string(i) + ")");
      }
      for (auto& r : Ranges())
        EqSlice(Ok(bag.ExplodeList(o, Range(r.from, r.to), fb), "ExplodeList"), Sub(l, r.from, r.to), id + "ExplodeList(" + std::to_string(r.from) + ", " + (r.to ? std::to_string(*r.to) : "end") + ")");
    }
    auto so = Slice(os);
    const std::string id = who + "lists " + Str(os) + ": ";
    for (bool zero : {true, false}) {
      auto sz = Ok(bag.GetListSize(so, fb, zero), "GetListSize");
      ++g.reads;
      if (sz.size() != (int64_t)os.size()) Fail(id + "GetListSize has another size");
      for (size_t i = 0; i < os.size(); ++i) {
        bool known = os[i].has_value() && List(s, Id(os[i])), vague = os[i].has_value() && Vague(s, Id(os[i]));
        bool want = os[i].has_value() && (zero || known);
        if (!zero && vague) continue;
        if (sz.present(i) != want || (want && sz.values[i] != (int64_t)get(os[i]).size())) Fail(id + "GetListSize of element " + std::to_string(i) + (zero ? "" : " (unset as missing)"));
      }
    }
    for (auto& r : Ranges()) {
      auto [v, e] = Ok(bag.ExplodeLists(so, Range(r.from, r.to), fb), "ExplodeLists");
      std::vector<Items_> want;
      for (auto& o : os) want.push_back(Sub(get(o), r.from, r.to));
      EqSlice(v, Flat(want), id + "ExplodeLists(" + std::to_string(r.from) + ", " + (r.to ? std::to_string(*r.to) : "end") + ")");
      if (!e.IsEquivalentTo(Edge(want))) Fail(id + "the edge of ExplodeLists");
    }
    for (int64_t i = -3; i <= 3; ++i) {
      std::vector<std::optional<int64_t>> is(os.size(), i);
      if (!is.empty() && i == 1) is[0] = std::nullopt;
      Items_ want(os.size());
      for (size_t j = 0; j < os.size(); ++j) if (is[j]) { auto& l = get(os[j]); int64_t k = i < 0 ? i + (int64_t)l.size() : i; if (k >= 0 && k < (int64_t)l.size()) want[j] = l[k]; }
      EqSlice(Ok(bag.GetFromLists(so, Ints(is), fb), "GetFromLists"), want, id + "GetFromLists(" + std::to_string(i) + ")");
    }
  }
}

// ---- Dicts.
inline void DSet(Model& m, ObjectId o, const DataItem& k, const DataItem& v) { if (!BadKey(k)) m.dicts[o][k] = v; }
inline void DClear(Model& m, ObjectId o) { for (auto& [k, v] : m.dicts[o]) v = DataItem(); }
// Keys of a type that cannot be one are refused, and then nothing changes.
inline bool Refused(const DataItem& k) { return k.has_value() && BadKey(k); }
inline Op DSetOp(std::string n, ObjectId o, DataItem k, DataItem v) {
  return {n, [=](World& w) {
    if (!k.has_value()) { w.bag->SetInDict(O(o), k, v).IgnoreError(); return; }
    if (Refused(k)) { NotOk(w.bag->SetInDict(O(o), k, v), "SetInDict with a floating point key"); return; }
    Mutate(w, "SetInDict", [&] { return w.bag->SetInDict(O(o), k, v); }, [&] { DSet(w.m, o, k, v); });
  }};
}
inline Op DSetN(std::string n, Items_ os, Items_ ks, Items_ vs) {
  return {n, [=](World& w) {
    for (auto& k : ks) if (Refused(k)) { NotOk(w.bag->SetInDict(Slice(os), Slice(ks), Slice(vs)), "SetInDict with a floating point key"); return; }
    Mutate(w, "SetInDict", [&] { return w.bag->SetInDict(Slice(os), Slice(ks), Slice(vs)); },
    [&] { for (size_t i = 0; i < os.size(); ++i) if (os[i].has_value()) DSet(w.m, Id(os[i]), ks[i], vs[i]); }); }};
}
inline Op DClearOp(std::string n, ObjectId o) {
  return {n, [=](World& w) { Mutate(w, "ClearDict", [&] { return w.bag->ClearDict(O(o)); }, [&] { DClear(w.m, o); }); }};
}
inline Op DClearN(std::string n, Items_ os) {
  return {n, [=](World& w) { Mutate(w, "ClearDict", [&] { return w.bag->ClearDict(Slice(os)); }, [&] { for (auto& o : os) if (o.has_value()) DClear(w.m, Id(o)); }); }};
}
inline Op CaptureDict(std::string n, Items_ os) {
  return {n, [=](World& w) { auto s = Ok(w.bag->GetDictValues(Slice(os)), "GetDictValues").first; w.captured.push_back({n, s, Items(s)}); }};
}
inline void CheckKeysValues(const DataSliceImpl& ks, const DataSliceImpl& vs, const std::vector<int64_t>& sp,
                            const std::vector<std::map<DataItem, DataItem, LessItem>>& want, const std::string& id) {
  ++g.reads;
  auto k = Items(ks), v = Items(vs);
  if (k.size() != v.size() || sp.back() != (int64_t)k.size()) Fail(id + "the sizes of keys and values differ");
  EqSlice(ks, k, id + "keys"); EqSlice(vs, v, id + "values");
  for (size_t i = 0; i < want.size(); ++i) {
    if (sp[i + 1] - sp[i] != (int64_t)want[i].size()) Fail(id + "dict " + std::to_string(i) + " has " + std::to_string(sp[i + 1] - sp[i]) + " keys, must have " + std::to_string(want[i].size()) + " (keys " + Str(k) + ")");
    std::set<std::string> seen;
    for (int64_t j = sp[i]; j < sp[i + 1]; ++j) {
      auto it = want[i].find(k[j]);
      if (it == want[i].end()) Fail(id + "unexpected key " + Str(k[j]));
      if (!seen.insert(KeyStr(k[j])).second) Fail(id + "key " + Str(k[j]) + " is listed twice");
      if (!Same(it->second, v[j])) Fail(id + "the value listed for key " + Str(k[j]) + " is " + Str(v[j]) + ", must be " + Str(it->second));
    }
  }
}
inline void ReadDicts(const DataBagImpl& bag, const Stack& s, const std::vector<const DataBagImpl*>& fb,
                      const std::vector<Items_>& slices, const Items_& keys, const std::string& who) {
  std::set<ObjectId> seen;
  for (auto& os : slices) {
    std::vector<std::map<DataItem, DataItem, LessItem>> want;
    for (auto& o : os) {
      want.push_back(o.has_value() ? DictOf(s, Id(o)) : std::map<DataItem, DataItem, LessItem>());
      if (!o.has_value() || !seen.insert(Id(o)).second) continue;
      const std::string id = who + "dict " + Str(o) + ": ";
      auto& m = want.back();
      Eq(Ok(bag.GetDictSize(o, fb), "GetDictSize"), L(m.size()), id + "GetDictSize");
      for (auto& k : keys) { auto it = m.find(k); Eq(Ok(bag.GetFromDict(o, k, fb), "GetFromDict"), it == m.end() ? N() : it->second, id + "GetFromDict(" + Str(k) + ")"); }
      auto [ks, ke] = Ok(bag.GetDictKeys(o, fb), "GetDictKeys");
      auto [vs, ve] = Ok(bag.GetDictValues(o, fb), "GetDictValues");
      CheckKeysValues(ks, vs, {0, (int64_t)ks.size()}, {m}, id);
      if (ke.parent_size() != 1 || ke.child_size() != (int64_t)ks.size() || !ke.IsEquivalentTo(ve)) Fail(id + "the edges of keys and values");
    }
    auto so = Slice(os);
    const std::string id = who + "dicts " + Str(os) + ": ";
    Items_ sizes;
    for (size_t i = 0; i < os.size(); ++i) sizes.push_back(os[i].has_value() ? L(want[i].size()) : N());
    EqSlice(Ok(bag.GetDictSize(so, fb), "GetDictSize"), sizes, id + "GetDictSize");
    for (auto& k : keys) {
      Items_ ks(os.size(), k), w;
      for (size_t i = 0; i < os.size(); ++i) { auto it = want[i].find(k); w.push_back(it == want[i].end() ? N() : it->second); }
      EqSlice(Ok(bag.GetFromDict(so, Slice(ks), fb), "GetFromDict"), w, id + "GetFromDict(" + Str(k) + ")");
    }
    for (size_t sh = 0; sh < 3; ++sh) {  // a different key for every dict
      Items_ ks, w;
      for (size_t i = 0; i < os.size(); ++i) { ks.push_back(keys[(i + sh) % keys.size()]); auto it = want[i].find(ks[i]); w.push_back(it == want[i].end() ? N() : it->second); }
      EqSlice(Ok(bag.GetFromDict(so, Slice(ks), fb), "GetFromDict"), w, id + "GetFromDict(" + Str(ks) + ")");
    }
    auto [ks, ke] = Ok(bag.GetDictKeys(so, fb), "GetDictKeys");
    auto [vs, ve] = Ok(bag.GetDictValues(so, fb), "GetDictValues");
    std::vector<Items_> groups;
    for (auto& m : want) groups.emplace_back(m.size());
    if (ke.parent_size() != (int64_t)os.size() || !ke.IsEquivalentTo(ve)) Fail(id + "the edges of keys and values");
    if (!ke.IsEquivalentTo(Edge(groups))) Fail(id + "the edge of the keys");
    std::vector<int64_t> sp{0};
    for (auto& x : groups) sp.push_back(sp.back() + x.size());
    CheckKeysValues(ks, vs, sp, want, id);
  }
}

// ---- Schema attributes are kept as those of a dict.
inline Op SSet(std::string n, ObjectId o, std::string a, DataItem v) {
  return {n, [=](World& w) { Mutate(w, "SetSchemaAttr", [&] { return w.bag->SetSchemaAttr(O(o), a, v); }, [&] { w.m.dicts[o][T(a)] = v; }); }};
}
inline Op SSetN(std::string n, std::vector<ObjectId> os, std::string a, Items_ v) {
  return {n, [=](World& w) { Mutate(w, "SetSchemaAttr", [&] { return w.bag->SetSchemaAttr(Slice(os), a, Slice(v)); }, [&] { for (size_t i = 0; i < os.size(); ++i) w.m.dicts[os[i]][T(a)] = v[i]; }); }};
}
inline Op SDel(std::string n, ObjectId o, std::string a) {
  return {n, [=](World& w) {
    auto it = w.m.dicts.find(o);
    bool there = it != w.m.dicts.end() && it->second.count(T(a)) && it->second[T(a)].has_value();
    if (!there) return;  // refused
    Mutate(w, "DelSchemaAttr", [&] { return w.bag->DelSchemaAttr(O(o), a); }, [&] { w.m.dicts[o][T(a)] = N(); });
  }};
}
inline void ReadSchemas(const DataBagImpl& b, const Model& m, const std::vector<ObjectId>& os, const std::vector<std::string>& names, const std::string& who) {
  for (auto o : os) {
    auto it = m.dicts.find(o);
    std::set<std::string> want, got;
    if (it != m.dicts.end()) for (auto& [k, v] : it->second) want.insert(Str(k));
    auto ks = Items(Ok(b.GetSchemaAttrs(O(o)), "GetSchemaAttrs"));
    for (auto& k : ks) if (!got.insert(Str(k)).second) Fail(who + "GetSchemaAttrs gives a name twice");
    Read();
    if (got != want) Fail(who + "GetSchemaAttrs(" + Str(O(o)) + ") = " + Str(ks));
    for (auto& a : names) {
      OptItem w;
      if (it != m.dicts.end()) if (auto j = it->second.find(T(a)); j != it->second.end()) w = j->second;
      auto r = Ok(b.GetSchemaAttrAllowMissingWithRemoved(O(o), a), "GetSchemaAttrAllowMissingWithRemoved");
      Read();
      if (r.has_value() != w.has_value() || (r && !Same(*r, *w))) Fail(who + "schema attribute " + a + " of " + Str(O(o)) + " is " + (r ? Str(*r) : "unset") + ", must be " + (w ? Str(*w) : "unset"));
    }
  }
}

// Everything handed out earlier is as it was.
inline void CheckCaptured(const World& w) {
  for (auto& c : w.captured) EqSlice(c.slice, c.items, "the slice got by " + c.what + " earlier");
}
inline std::vector<std::string> Names(const std::vector<Op>& ops) { std::vector<std::string> r; for (auto& o : ops) r.push_back(o.first); return r; }
}  // namespace drv
#endif
