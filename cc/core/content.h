// What the content of a bag says, as a model.
#ifndef VERIF_CORE_CONTENT_H_
#define VERIF_CORE_CONTENT_H_
#include "bag.h"
namespace drv {
using kd::internal::DataBagContent;
inline bool BigSchema(ObjectId o) { return o.IsSchema() && !o.IsSmallAlloc(); }

// What a content says, every fact at most once.
inline Model Told(const DataBagContent& c, const std::string& who) {
  Model m;
  auto put = [&](ObjectId o, const std::string& a, const DataItem& v) {
    bool fresh = BigSchema(o) ? m.dicts[o].insert({T(a), v}).second : m.attrs.insert({{a, o}, v}).second;
    if (!fresh) Fail(who + "attribute " + a + " of " + Str(O(o)) + " is told twice");
  };
  for (auto& [a, x] : c.attrs) {
    for (auto& al : x.allocs) {
      auto& tb = al.values.types_buffer();
      if (al.values.size() > al.alloc_id.Capacity()) Fail(who + "more values than the allocation has");
      for (size_t i = 0; i < al.values.size(); ++i)
        if (tb.size() == 0 || tb.id_to_typeidx[i] != TypesBuffer::kUnset) put(al.alloc_id.ObjectByOffset(i), a, al.values[i]);
    }
    for (auto& it : x.items) put(it.object_id, a, it.value);
  }
  for (auto& l : c.lists) {
    auto& e = l.lists_to_values_edge;
    if (e.edge_type() != arolla::DenseArrayEdge::SPLIT_POINTS || e.parent_size() != (int64_t)l.unset_lists.size() || e.child_size() != (int64_t)l.values.size()) Fail(who + "the edge of lists");
    auto sp = e.edge_values().values.span();
    for (size_t i = 0; i < l.unset_lists.size(); ++i) {
      if (l.unset_lists[i]) { if (sp[i] != sp[i + 1]) Fail(who + "an unset list has values"); continue; }
      Items_ v; for (int64_t j = sp[i]; j < sp[i + 1]; ++j) v.push_back(l.values[j]);
      if (!m.lists.insert({l.alloc_id.ObjectByOffset(i), v}).second) Fail(who + "a list is told twice");
    }
  }
  for (auto& d : c.dicts) {
    if (d.keys.size() != d.values.size()) Fail(who + "keys and values of a dict");
    if (BigSchema(d.dict_id)) continue;
    if (m.dicts.count(d.dict_id)) Fail(who + "a dict is told twice");
    for (size_t i = 0; i < d.keys.size(); ++i) if (!m.dicts[d.dict_id].insert({d.keys[i], d.values[i]}).second) Fail(who + "a key is told twice");
  }
  return m;
}
// Same facts; lists only touched by operations without effect may be there, empty.
inline void SameFacts(Model got, Model want, const std::string& who) {
  ++g.reads;
  for (auto o : want.vague) if (auto it = got.lists.find(o); it != got.lists.end() && it->second.empty() && !want.lists.count(o)) got.lists.erase(it);
  std::erase_if(want.dicts, [](auto& x) { return x.second.empty(); });
  std::erase_if(got.dicts, [](auto& x) { return x.second.empty(); });
  want.frozen = false;
  if (got.Digest() != want.Digest()) Fail(who + "says " + got.Digest() + ", must say " + want.Digest());
}
}  // namespace drv
#endif
