// B11: what is extracted, cloned, hashed and compared is the part of a bag that is reached.
#include "content.h"
#include "koladata/internal/op_utils/deep_clone.h"
#include "koladata/internal/op_utils/deep_equivalent.h"
#include "koladata/internal/op_utils/deep_uuid.h"
#include "koladata/internal/op_utils/extract.h"
#include "koladata/internal/op_utils/new_ids_like.h"
#include "koladata/internal/schema_attrs.h"
#include "koladata/internal/uuid_object.h"
#include "koladata/internal/uuid_schemas.h"
namespace drv {
namespace {
using kd::internal::DeepCloneOp;
using kd::internal::DeepEquivalentOp;
using kd::internal::DeepUuidOp;
using kd::internal::ExtractOp;
using kd::internal::ShallowCloneOp;
using Step = kd::internal::TraverseHelper::TransitionKey;
using StepType = kd::internal::TraverseHelper::TransitionType;
const char kSchema[] = "__schema__", kItems[] = "__items__", kKeys[] = "__keys__", kValues[] = "__values__", kName[] = "__schema_name__", kMeta[] = "__schema_metadata__";
DataItem Implicit(ObjectId o) {
  return Ok(kd::internal::CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(O(o), kd::schema::kImplicitSchemaSeed), "implicit schema");
}
struct Uni {
  const bool single;
  DataItem INT{kd::schema::kInt32}, STR{kd::schema::kString}, OBJ{kd::schema::kObject}, IID{kd::schema::kItemId}, SCH{kd::schema::kSchema};
  AllocationId N_, OB, L_, D_;
  ObjectId n[4], ob[2], l[2], d[2], S, S2, M;
  DataItem LS, DS, NF, I0, I1, IM;
  std::set<ObjectId> ids;
  explicit Uni(bool s, size_t cap) : single(s) {
    using namespace kd::internal;
    N_ = Allocate(cap); OB = Allocate(2); L_ = AllocateLists(2); D_ = AllocateDicts(2);
    for (int i = 0; i < 4; ++i) n[i] = s ? AllocateSingleObject() : N_.ObjectByOffset(cap > 4 ? i * 7 : i);
    for (int i = 0; i < 2; ++i) { ob[i] = s ? AllocateSingleObject() : OB.ObjectByOffset(i); l[i] = s ? AllocateSingleList() : L_.ObjectByOffset(i); d[i] = s ? AllocateSingleDict() : D_.ObjectByOffset(i); }
    S = AllocateExplicitSchema(); S2 = AllocateExplicitSchema();
    LS = CreateListSchemaId(O(S)); DS = CreateDictSchemaId(STR, O(S)); NF = DataItem(CreateNoFollowWithMainObject(S));
    I0 = Implicit(ob[0]); I1 = Implicit(ob[1]);
    M = Ok(CreateUuidWithMainObject(O(S2), kd::schema::kMetadataSeed), "metadata").value<ObjectId>(); IM = Implicit(M);
    for (auto x : n) ids.insert(x);
    for (int i = 0; i < 2; ++i) { ids.insert(ob[i]); ids.insert(l[i]); ids.insert(d[i]); }
    ids.insert(M);
  }
};
struct W2 { World w[2]; };
using Op2 = std::pair<std::string, std::function<void(W2&)>>;
Op2 On(int k, Op o) { return {(k ? "fallback: " : "") + o.first, [=](W2& w) { o.second(w.w[k]); }}; }

bool IsId(const DataItem& x) { return x.holds_value<ObjectId>(); }
bool Struct(const DataItem& s) { return IsId(s); }
bool NoFollow(const DataItem& s) { return IsId(s) && Id(s).IsNoFollowSchema(); }
bool Object(const DataItem& s) { return s.holds_value<kd::schema::DType>() && s.value<kd::schema::DType>() == kd::schema::kObject; }
bool SchemaT(const DataItem& s) { return s.holds_value<kd::schema::DType>() && s.value<kd::schema::DType>() == kd::schema::kSchema; }
bool ItemIdT(const DataItem& s) { return s.holds_value<kd::schema::DType>() && s.value<kd::schema::DType>() == kd::schema::kItemId; }
// The attributes of a schema; missing: removed.
std::map<std::string, DataItem> SchemaOf(const Stack& st, ObjectId s) {
  std::map<std::string, DataItem> r;
  for (auto& [k, v] : DictOf(st, s)) r[std::string(k.value<arolla::Text>().view())] = v;
  return r;
}
std::map<std::string, DataItem> Present(const Stack& st, ObjectId s) {
  auto r = SchemaOf(st, s);
  std::erase_if(r, [](auto& x) { return !x.second.has_value(); });
  return r;
}
DataItem ObjSchema(const Stack& st, ObjectId o) { return Attr(st, o, kSchema).value_or(DataItem()); }

// ---- What is reached from a root.
struct Reach {
  Stack st, ss;        // where data are, and where schemas of entities are
  Model facts;         // with everything that is reached
  int limit = -1;
  std::map<ObjectId, int> depth;  // of the objects
  std::set<std::pair<std::string, std::string>> seen;
  std::set<ObjectId> schemas;
  std::deque<std::tuple<DataItem, DataItem, int>> queue;
  bool some_schema = false, some_nofollow = false;

  void Schema(ObjectId s, bool object) {
    if (s.IsNoFollowSchema() || !schemas.insert(s).second) return;
    for (auto& [a, v] : SchemaOf(object ? st : ss, s)) {
      facts.dicts[s][T(a)] = v;
      if (!v.has_value() || a == kName) continue;
      if (a == kMeta) { queue.emplace_back(v, DataItem(kd::schema::kObject), limit); continue; }
      if (Struct(v)) Schema(Id(v), object);
    }
  }
  void Visit(const DataItem& x, const DataItem& s, int d) {
    if (Struct(s)) { Schema(Id(s), false); if (NoFollow(s)) { some_nofollow |= x.has_value(); return; } if (IsId(x)) queue.emplace_back(x, s, d); }
    else if (Object(s)) { if (IsId(x)) queue.emplace_back(x, s, d); }
    else if (SchemaT(s) && x.has_value()) { some_schema = true; if (IsId(x)) Schema(Id(x), true); }
  }
  void Node(const DataItem& x, const DataItem& s, int d, bool object) {
    if (NoFollow(s)) return;
    auto as = Present(object ? st : ss, Id(s));
    const bool keep = limit < 0 || d < limit;
    const ObjectId o = Id(x);
    if (as.count(kItems)) {
      auto* l = List(st, o);
      if (!l) return;
      if (keep) facts.lists[o] = *l;
      for (auto& v : *l) Visit(v, as[kItems], d + 1);
    } else if (as.count(kKeys)) {
      for (auto& [k, v] : DictOf(st, o)) { if (keep) facts.dicts[o][k] = v; Visit(k, as[kKeys], d + 1); Visit(v, as[kValues], d + 1); }
    } else {
      for (auto& [a, t] : as) if (a != kName && a != kMeta) {
        auto v = Attr(st, o, a);
        if (!v) continue;
        if (keep) facts.attrs[{a, o}] = *v;
        Visit(*v, t, d + 1);
      }
    }
  }
  void Run(const Items_& roots, const DataItem& s) {
    for (auto& x : roots) Visit(x, s, 0);
    if (Struct(s)) Schema(Id(s), false);
    while (!queue.empty()) {
      auto [x, t, d] = queue.front(); queue.pop_front();
      if (limit >= 0 && d > limit) continue;
      if (!seen.insert({Str(x), Str(t)}).second) continue;
      depth.insert({Id(x), d});
      if (Object(t)) {
        auto os = Attr(st, Id(x), kSchema);
        if (os) facts.attrs[{kSchema, Id(x)}] = *os;
        if (os && Struct(*os)) { Schema(Id(*os), true); Node(x, *os, d, true); }
      } else Node(x, t, d, false);
    }
  }
};
// Removed schema attributes may be told or not.
Model Normal(Model m) {
  for (auto& [o, d] : m.dicts) if (o.IsSchema()) std::erase_if(d, [](auto& x) { return !x.second.has_value(); });
  return m;
}
Model Told(const DataBagImpl& b, const std::string& who) { return drv::Told(Ok(b.ExtractContent(), "ExtractContent"), who); }

// ---- The shape of what is reached, without the ids.
struct Canon {
  Stack st;
  std::map<ObjectId, int> num;
  std::set<std::pair<ObjectId, std::string>> done;
  std::string bad;
  std::string Node(const DataItem& x, const DataItem& s) {
    if (!IsId(x) || ItemIdT(s) || SchemaT(s)) return Str(x);
    const ObjectId o = Id(x);
    std::string r = "<" + std::to_string(num.insert({o, num.size()}).first->second) + (o.IsList() ? "L" : o.IsDict() ? "D" : "");
    DataItem t = s;
    if (Object(s)) {
      t = ObjSchema(st, o);
      if (!IsId(t)) return r + ":" + Str(t) + ">";
      if (Id(t).IsImplicitSchema()) { r += ":implicit"; if (!Same(t, Implicit(o))) bad = "the implicit schema of " + Str(x) + " is " + Str(t); }
      else r += ":" + Str(t);
    }
    if (!IsId(t) || NoFollow(t) || !done.insert({o, Object(s) ? "object" : "entity"}).second) return r + ">";
    auto as = Present(st, Id(t));
    if (as.count(kItems)) { if (auto* l = List(st, o)) for (auto& v : *l) r += " " + Node(v, as[kItems]); }
    else if (as.count(kKeys)) { for (auto& [k, v] : DictOf(st, o)) r += " " + KeyStr(k) + "=" + Node(v, as[kValues]); }
    else for (auto& [a, ts] : as) if (a != kName && a != kMeta) r += " " + a + "=" + Node(Attr(st, o, a).value_or(DataItem()), ts);
    return r + ">";
  }
  std::string Of(const Items_& xs, const DataItem& s) { std::string r; for (auto& x : xs) r += Node(x, s) + "; "; return r; }
};

// ---- The tree of what is reached; nullopt when it is infinite.
struct Terms {
  Stack st;
  std::map<ObjectId, std::optional<std::string>> memo;
  std::set<ObjectId> open;
  std::optional<std::string> Term(const DataItem& x, const DataItem& s, const ObjectId* parent) {
    if (!IsId(x) || ItemIdT(s)) return Str(x);
    const ObjectId o = Id(x);
    if (parent && *parent == o) return "self";
    if (auto it = memo.find(o); it != memo.end()) return it->second;
    if (!open.insert(o).second) return std::nullopt;
    DataItem t = Object(s) ? ObjSchema(st, o) : s;
    std::string r; bool fail = false;
    auto add = [&](const std::string& k, const DataItem& v, const DataItem& vs, bool self) { auto y = Term(v, vs, self ? &o : nullptr); if (!y) fail = true; else r += " " + k + "=" + *y; };
    auto as = Present(st, Id(t));
    if (as.count(kItems)) { r = "list"; if (auto* l = List(st, o)) for (auto& v : *l) add("", v, as[kItems], false); }
    else if (as.count(kKeys)) { r = "dict"; for (auto& [k, v] : DictOf(st, o)) add(Str(k), v, as[kValues], false); }
    else { r = "obj"; for (auto& [a, ts] : as) if (a != kName && a != kMeta) add(a, Attr(st, o, a).value_or(DataItem()), ts, true); }
    open.erase(o);
    return memo[o] = fail ? std::optional<std::string>() : "(" + r + ")";
  }
};

// ---- Whether two graphs unfold to the same.
enum Verdict { kSame, kVague, kDiff };
struct Bisim {
  Stack a, b;
  DeepEquivalentOp::DeepEquivalentParams p;
  std::set<std::tuple<std::string, std::string, std::string, std::string>> seen;
  Verdict v = kSame;
  void Note(Verdict x) { if (x > v) v = x; }
  bool Equal(const DataItem& x, const DataItem& s, const DataItem& y, const DataItem& t) {
    if (p.schemas_equality && !Same(s, t)) return false;
    if (!IsId(x) || !IsId(y) || p.ids_equality) return Same(x, y);
    if (Id(x).IsList() != Id(y).IsList() || Id(x).IsDict() != Id(y).IsDict() || Id(x).IsSchema() != Id(y).IsSchema()) return false;
    if (ItemIdT(s)) return Same(s, t) && Same(x, y);
    return true;
  }
  // Edges of one node: name, value and its schema.
  using Edges = std::map<std::string, std::pair<DataItem, DataItem>>;
  static Edges Out(const Stack& st, const DataItem& x, DataItem s) {
    Edges r;
    if (x.has_value() && !IsId(x)) return r;
    if (Object(s)) { if (!IsId(x)) return r; s = ObjSchema(st, Id(x)); }
    if (!IsId(s) || NoFollow(s)) return r;
    auto as = Present(st, Id(s));
    // Of what is missing or empty, the schemas are compared.
    if (as.count(kItems)) { auto* l = IsId(x) ? List(st, Id(x)) : nullptr; for (size_t i = 0; l && i < l->size(); ++i) r["[" + std::to_string(i) + "]"] = {(*l)[i], as[kItems]}; if (r.empty()) r["no items"] = {N(), as[kItems]}; }
    else if (as.count(kKeys)) { if (IsId(x)) for (auto& [k, v] : DictOf(st, Id(x))) r["[" + Str(k) + "]"] = {v, as[kValues]}; if (r.empty()) { r["no keys"] = {N(), as[kKeys]}; r["no values"] = {N(), as[kValues]}; } }
    else for (auto& [n, t] : as) if (n != kName && n != kMeta) r["." + n] = {IsId(x) ? Attr(st, Id(x), n).value_or(DataItem()) : N(), t};
    return r;
  }
  // Of an edge that only one side has.
  Verdict OneSided(const std::string& name, const DataItem& x, bool left) {
    const bool attr = name[0] == '.';
    if (name[0] == 'n') return kSame;
    if (left && p.partial && attr) return kSame;
    if (!x.has_value() && !p.schemas_equality) return attr ? kSame : kVague;
    return kDiff;
  }
  Verdict Pair(const std::string& name, const DataItem& x, const DataItem& s, const DataItem& y, const DataItem& t) {
    if (Equal(x, s, y, t)) return kSame;
    return p.partial && name[0] == '.' && !y.has_value() ? kSame : kDiff;
  }
  void Go(const DataItem& x, const DataItem& s, const DataItem& y, const DataItem& t) {
    if (!seen.insert({Str(x), Str(s), Str(y), Str(t)}).second) return;
    if (SchemaT(s)) { if (IsId(x) && (!Same(x, y) || a != b)) Note(kVague); return; }
    auto e = Out(a, x, s), f = Out(b, y, t);
    for (auto& [k, v] : e) {
      auto it = f.find(k);
      if (it == f.end()) { Note(OneSided(k, v.first, true)); continue; }
      auto& w = it->second;
      if (Equal(v.first, v.second, w.first, w.second)) Go(v.first, v.second, w.first, w.second); else Note(Pair(k, v.first, v.second, w.first, w.second));
    }
    for (auto& [k, w] : f) if (!e.count(k)) Note(OneSided(k, w.first, false));
  }
  Verdict Of(const Items_& x, const DataItem& s, const Items_& y, const DataItem& t) {
    for (size_t i = 0; i < x.size(); ++i) if (Equal(x[i], s, y[i], t)) Go(x[i], s, y[i], t); else Note(kDiff);
    return v;
  }
  // A path to a difference leads, on both sides, to what differs.
  bool Leads(const std::vector<Step>& path, const Items_& xs, DataItem s, const Items_& ys, DataItem t, bool* known) {
    DataItem x, y; *known = true;
    size_t i = 0;
    if (path.empty() || path[0].type != StepType::kSliceItem) { *known = false; return true; }
    const int64_t at = path[0].index < 0 ? 0 : path[0].index;
    if (at >= (int64_t)xs.size()) return false;
    x = xs[at]; y = ys[at];
    if (path.size() == 1) return !Equal(x, s, y, t);
    for (i = 1; i < path.size(); ++i) {
      std::string name;
      if (path[i].type == StepType::kAttributeName) name = "." + std::string(path[i].value.value<arolla::Text>().view());
      else if (path[i].type == StepType::kListItem) name = "[" + std::to_string(path[i].index) + "]";
      else if (path[i].type == StepType::kDictValue) name = "[" + Str(path[i].value) + "]";
      else { *known = false; return true; }
      auto e = Out(a, x, s), f = Out(b, y, t);
      auto l = e.find(name), r = f.find(name);
      if (i + 1 == path.size()) {
        if (l == e.end() && r == f.end()) return false;
        if (l == e.end()) return OneSided(name, r->second.first, false) != kSame;
        if (r == f.end()) return OneSided(name, l->second.first, true) != kSame;
        return Pair(name, l->second.first, l->second.second, r->second.first, r->second.second) == kDiff;
      }
      if (l != e.end() && SchemaT(l->second.second)) { *known = false; return true; }
      if (l == e.end() || r == f.end() || !Equal(l->second.first, l->second.second, r->second.first, r->second.second)) return false;
      std::tie(x, s) = l->second; std::tie(y, t) = r->second;
    }
    return true;
  }
};
std::string PathStr(const std::vector<Step>& p) { return kd::internal::TraverseHelper::TransitionKeySequenceToAccessPath(p); }

struct Root { std::string name; Items_ items; DataItem schema; };

void CheckEquivalent(const DataBagImpl& ba, const Stack& sa, const std::vector<const DataBagImpl*>& fa, const Items_& x, const DataItem& s,
                     const DataBagImpl& bb, const Stack& sb, const std::vector<const DataBagImpl*>& fb, const Items_& y, const DataItem& t, const std::string& who, bool must_be_same = false) {
  for (int k = 0; k < 8; ++k) {
    DeepEquivalentOp::DeepEquivalentParams p{.partial = (k & 1) != 0, .schemas_equality = (k & 2) != 0, .ids_equality = (k & 4) != 0};
    if (must_be_same && k >= 4) break;
    const std::string id = who + (p.partial ? " partial" : "") + (p.schemas_equality ? " schemas" : "") + (p.ids_equality ? " ids" : "") + ": ";
    Bisim m{sa, sb, p};
    const Verdict v = m.Of(x, s, y, t);
    auto db = DataBagImpl::CreateEmptyDatabag();
    DeepEquivalentOp op(db.get(), p);
    auto r = Ok(op(Slice(x), s, ba, fa, Slice(y), t, bb, fb), "deep_equivalent");
    auto paths = Ok(op.GetDiffPaths(r, DataItem(kd::schema::kObject)), "GetDiffPaths");
    auto one = Ok(op.GetDiffPaths(r, DataItem(kd::schema::kObject), 1), "GetDiffPaths");
    ++g.reads;
    if (paths.size() > 5 || one.size() != std::min<size_t>(1, paths.size())) Fail(id + "the number of differences told is not as asked");
    if (v == kSame && !paths.empty()) Fail(id + "they are equivalent, but differ at " + PathStr(paths[0].path));
    if (v == kDiff && paths.empty()) Fail(id + "they differ, but no difference is told");
    if (must_be_same && v == kDiff) Fail(id + "the copy is not equivalent to the original");
    for (auto& d : paths) { bool known; if (!m.Leads(d.path, x, s, y, t, &known)) Fail(id + "no difference is at the path " + PathStr(d.path)); }
  }
}

// The uuid of every tree met so far, and the other way round.
void CheckUuid(const std::string& seed, const std::optional<std::string>& term, const absl::StatusOr<DataSliceImpl>& r, const std::string& who) {
  static std::map<std::string, std::string> of, from;
  ++g.reads;
  if (!term) { if (r.ok()) Fail(who + "there is a cycle, but deep_uuid succeeds"); return; }
  auto u = Items(Ok(r, "deep_uuid"));
  const std::string key = seed + "|" + *term, val = Str(u.at(0));
  if (!IsId(u[0]) || !Id(u[0]).IsUuid()) Fail(who + "deep_uuid gives " + val);
  if (auto it = of.insert({key, val}).first; it->second != val) Fail(who + "deep_uuid is " + val + ", and was " + it->second + " for the same tree " + key);
  if (auto it = from.insert({val, key}).first; it->second != key) Fail(who + "deep_uuid is " + val + " for " + key + ", as for " + it->second);
}

void CheckRoot(const Uni& u, const W2& w, const Root& r) {
  const DataBagImpl& bag = *w.w[0].bag;
  const std::vector<const DataBagImpl*> fb{w.w[1].bag.get()};
  const Stack st{&w.w[0].m, &w.w[1].m};
  const DataSliceImpl ds = Slice(r.items);
  const std::string who = r.name + ": ";

  // Extraction.
  Reach all{.st = st, .ss = st};
  all.Run(r.items, r.schema);
  auto ext = DataBagImpl::CreateEmptyDatabag();
  Ok(ExtractOp(ext.get())(ds, r.schema, bag, fb, nullptr, {}), "extract");
  Model em = Told(*ext, who);
  SameFacts(Normal(em), Normal(all.facts), who + "the extracted bag ");
  if (r.items.size() == 1) {
    auto e1 = DataBagImpl::CreateEmptyDatabag();
    Ok(ExtractOp(e1.get())(r.items[0], r.schema, bag, fb, nullptr, {}), "extract");
    SameFacts(Normal(Told(*e1, who)), Normal(all.facts), who + "the bag extracted for the item ");
  }
  // Once more from the extracted bag: the same.
  auto again = DataBagImpl::CreateEmptyDatabag();
  Ok(ExtractOp(again.get())(ds, r.schema, *ext, {}, nullptr, {}), "extract");
  SameFacts(Normal(Told(*again, who)), Normal(all.facts), who + "the bag extracted twice ");
  if (!SchemaT(r.schema)) for (int k = 0; k <= 2; ++k) {
    Reach part{.st = st, .ss = st, .limit = k};
    part.Run(r.items, r.schema);
    auto e = DataBagImpl::CreateEmptyDatabag();
    std::set<ObjectId> leaves, want;
    kd::internal::LeafCallback cb = [&](const DataSliceImpl& s, const DataItem& t) { if (!NoFollow(t)) for (auto& x : Items(s)) if (IsId(x) && !Id(x).IsSchema()) leaves.insert(Id(x)); return absl::OkStatus(); };
    Ok(ExtractOp(e.get())(ds, r.schema, bag, fb, nullptr, {}, k, std::nullopt, cb), "extract to a depth");
    Model got = Normal(Told(*e, who)), m = Normal(part.facts);
    for (auto* x : {&got, &m}) { std::erase_if(x->dicts, [](auto& y) { return y.first.IsSchema(); }); std::erase_if(x->attrs, [&](auto& y) { return y.first.second == u.M; }); }
    SameFacts(got, m, who + "the bag extracted to depth " + std::to_string(k) + " ");
    for (auto& [o, d] : part.depth) if (d == k && o != u.M) want.insert(o);
    leaves.erase(u.M);
    Read();
    if (leaves != want) Fail(who + std::to_string(leaves.size()) + " leaves at depth " + std::to_string(k) + ", must be " + std::to_string(want.size()));
  }
  if (SchemaT(r.schema)) return;

  // A deep clone.
  Canon before{.st = st}, after;
  const std::string shape = before.Of(r.items, r.schema);
  auto nb = DataBagImpl::CreateEmptyDatabag();
  auto clone = Items(Ok(DeepCloneOp(nb.get())(ds, r.schema, bag, fb), "deep_clone"));
  const Model cm = Told(*nb, who);
  const Stack cs{&cm};
  after.st = cs;
  const std::string cshape = after.Of(clone, r.schema);
  Read();
  if (cshape != shape) Fail(who + "the clone is " + cshape + ", must be " + shape);
  if (!after.bad.empty()) Fail(who + "in the clone " + after.bad);
  for (auto& [o, k] : after.num) if (u.ids.count(o)) Fail(who + "the clone has " + Str(O(o)) + " of the original");
  auto in = [&](ObjectId o) { return after.num.count(o) || o.IsSchema() || all.depth.count(o) && o == u.M; };
  for (auto& [k, v] : cm.attrs) if (v.has_value() && !in(k.second)) {
    // Metadata of explicit schemas, and what hangs on it, are extracted.
    Fail(who + "the clone has attribute " + k.first + " of " + Str(O(k.second)) + ", which is not reached");
  }
  for (auto& [o, l] : cm.lists) if (!l.empty() && !in(o)) Fail(who + "the clone has list " + Str(O(o)) + ", which is not reached");
  for (auto& [o, l] : cm.dicts) if (!l.empty() && !in(o)) Fail(who + "the clone has dict " + Str(O(o)) + ", which is not reached");
  Model s1 = Normal(cm), s2 = Normal(all.facts);
  for (auto* x : {&s1, &s2}) { x->attrs.clear(); x->lists.clear(); x->vague.clear(); std::erase_if(x->dicts, [](auto& y) { return !y.first.IsSchema() || y.first.IsImplicitSchema(); }); }
  SameFacts(s1, s2, who + "the clone, of explicit schemas, ");
  auto nb2 = DataBagImpl::CreateEmptyDatabag();
  auto clone2 = Items(Ok(DeepCloneOp(nb2.get())(ds, r.schema, bag, fb), "deep_clone"));
  for (size_t i = 0; i < clone2.size(); ++i) if (IsId(clone[i]) && Same(clone[i], clone2[i])) Fail(who + "two clones share an id");

  // A shallow clone.
  {
    const DataSliceImpl ids = kd::internal::NewIdsLike(ds);
    auto nid = Items(ids);
    std::set<ObjectId> distinct;
    for (size_t i = 0; i < nid.size(); ++i) {
      if (IsId(r.items[i]) != IsId(nid[i])) Fail(who + "new_ids_like of " + Str(r.items) + " = " + Str(nid));
      if (!IsId(nid[i])) continue;
      const ObjectId o = Id(nid[i]), q = Id(r.items[i]);
      if (u.ids.count(o) || !distinct.insert(o).second) Fail(who + "new_ids_like gives an id that is not new");
      if (o.IsList() != q.IsList() || o.IsDict() != q.IsDict() || o.IsSchema() || o.IsUuid()) Fail(who + "new_ids_like gives an id of another kind");
    }
    auto sh = DataBagImpl::CreateEmptyDatabag();
    auto [sl, sc] = Ok(ShallowCloneOp(sh.get())(ds, ids, r.schema, bag, fb, nullptr, {}), "shallow_clone");
    Items_ want_items;
    for (size_t i = 0; i < nid.size(); ++i) want_items.push_back(IsId(nid[i]) ? nid[i] : r.items[i]);
    EqSlice(sl, want_items, who + "shallow_clone");
    if (!Same(sc, r.schema)) Fail(who + "shallow_clone gives another schema");
    Model want;
    auto schema = [&](ObjectId from, ObjectId to) { for (auto& [a, v] : Present(st, from)) if (a != kMeta && (a != kName || from == to)) want.dicts[to][T(a)] = v; };
    if (Struct(r.schema)) schema(Id(r.schema), Id(r.schema));
    for (size_t i = 0; i < nid.size(); ++i) if (IsId(nid[i])) {
      const ObjectId o = Id(r.items[i]), q = Id(nid[i]);
      DataItem s = r.schema;
      if (Object(s)) {
        s = ObjSchema(st, o);
        if (!IsId(s)) continue;
        const DataItem ns = Id(s).IsImplicitSchema() ? Implicit(q) : s;
        want.attrs[{kSchema, q}] = ns;
        schema(Id(s), Id(ns));
      }
      auto as = Present(st, Id(s));
      if (as.count(kItems)) { if (auto* l = List(st, o)) want.lists[q] = *l; }
      else if (as.count(kKeys)) { for (auto& [k, v] : DictOf(st, o)) want.dicts[q][k] = v; }
      else for (auto& [a, t] : as) if (a != kName && a != kMeta) if (auto v = Attr(st, o, a); v && v->has_value()) want.attrs[{a, q}] = *v;
    }
    Model got = Normal(Told(*sh, who));
    std::erase_if(got.attrs, [](auto& x) { return !x.second.has_value(); });
    SameFacts(got, want, who + "the shallow clone ");
  }

  // The uuids.
  if (!all.some_schema && !all.some_nofollow) {
    bool fail = false;
    Terms t{.st = st};
    for (auto& x : r.items) {
      auto term = t.Term(x, r.schema, nullptr);
      if (term && !IsId(x)) term = "item " + *term;
      fail |= !term;
      for (const char* seed : {"", "q"}) CheckUuid(seed, term, DeepUuidOp()(T(seed), Slice(Items_{x}), r.schema, bag, fb), who);
      CheckUuid("", term, DeepUuidOp()(N(), Slice(Items_{x}), r.schema, bag, fb), who);
    }
    auto whole = DeepUuidOp()(N(), ds, r.schema, bag, fb);
    ++g.reads;
    if (whole.ok() == fail) Fail(who + "deep_uuid of all " + (fail ? "must fail" : "fails"));
    if (whole.ok()) {
      for (size_t i = 0; i < r.items.size(); ++i) CheckUuid("", t.Term(r.items[i], r.schema, nullptr).value().insert(0, IsId(r.items[i]) ? "" : "item "), absl::StatusOr<DataSliceImpl>(Slice(Items_{(*whole)[i]})), who + "among others, ");
      auto cu = DeepUuidOp()(N(), Slice(clone), r.schema, *nb);
      EqSlice(Ok(cu, "deep_uuid"), Items(*whole), who + "deep_uuid of the clone");
    }
  }
  NotOk(DeepUuidOp()(I(1), ds, r.schema, bag, fb), "deep_uuid with a seed that is no string");

  // Equivalence to the copies.
  CheckEquivalent(bag, st, fb, r.items, r.schema, *nb, cs, {}, clone, r.schema, who + "original and clone", true);
  const Stack es{&em};
  CheckEquivalent(*ext, es, {}, r.items, r.schema, bag, st, fb, r.items, r.schema, who + "extract and original");
  NotOk(DeepEquivalentOp(nb2.get(), {})(ds, r.schema, bag, fb, Slice(Items_(r.items.size() + 1)), r.schema, bag, fb), "deep_equivalent of other sizes");
}

// With the schemas in a bag of their own, which tell of fewer attributes.
void CheckSchemaBag(const Uni& u, const W2& w) {
  World s;
  for (auto& op : {SSet("", u.S, "a", u.INT), SSet("", u.S, "next", O(u.S)), SSet("", u.S, "l", u.LS), SSet("", Id(u.LS), kItems, O(u.S)), SSet("", u.S, "q", u.STR)}) op.second(s);
  const Stack st{&w.w[0].m, &w.w[1].m};
  Reach all{.st = st, .ss = {&s.m}};
  Items_ roots{O(u.n[0]), O(u.n[1])};
  all.Run(roots, O(u.S));
  auto e = DataBagImpl::CreateEmptyDatabag();
  Ok(ExtractOp(e.get())(Slice(roots), O(u.S), *w.w[0].bag, {w.w[1].bag.get()}, s.bag.get(), {}), "extract");
  SameFacts(Normal(Told(*e, "")), Normal(all.facts), "with another bag for schemas, the extracted bag ");
}

Shard Make(std::string name, int depth, std::shared_ptr<Uni> up, std::vector<Op2> base, std::vector<Op2> ops, bool schema_in_fallback) {
  auto& u = *up;
  const int k = schema_in_fallback ? 1 : 0;
  std::vector<Op2> setup;
  for (auto& [s, a, v] : std::vector<std::tuple<DataItem, std::string, DataItem>>{
           {O(u.S), "a", u.INT}, {O(u.S), "next", O(u.S)}, {O(u.S), "l", u.LS}, {O(u.S), "d", u.DS}, {O(u.S), "o", u.OBJ}, {O(u.S), "i", u.IID}, {O(u.S), "t", u.SCH}, {O(u.S), "f", u.NF},
           {u.LS, kItems, O(u.S)}, {u.DS, kKeys, u.STR}, {u.DS, kValues, O(u.S)}, {O(u.S2), "b", u.STR}, {O(u.S2), "c", O(u.S)}, {O(u.S2), kMeta, O(u.M)}, {u.IM, "doc", u.STR},
           {u.I0, "x", u.INT}, {u.I0, "e", O(u.S)}, {u.I0, "o", u.OBJ}, {u.I1, "x", u.STR}, {u.I1, "e", O(u.S)}, {u.I1, "o", u.OBJ}})
    setup.push_back(On(k, SSet("", Id(s), a, v)));
  for (auto& [o, s] : std::vector<std::pair<ObjectId, DataItem>>{{u.ob[0], u.I0}, {u.ob[1], u.I1}, {u.n[3], O(u.S)}, {u.l[0], u.LS}, {u.d[0], u.DS}, {u.M, u.IM}}) setup.push_back(On(k, SetItem("", o, kSchema, s)));
  setup.push_back(On(k, SetItem("", u.M, "doc", T("text"))));
  setup.insert(setup.end(), base.begin(), base.end());
  std::vector<std::string> names;
  for (auto& o : ops) names.push_back(o.first);
  return {name, names, depth, [=](const std::vector<int>& h, std::string* out) {
    auto& u = *up;
    W2 w, before;
    for (auto& o : setup) { o.second(w); o.second(before); }
    for (size_t i = 0; i < h.size(); ++i) { ops[h[i]].second(w); if (i + 1 < h.size()) ops[h[i]].second(before); }
    Items_ n = {O(u.n[0]), O(u.n[1])};
    for (auto& r : std::vector<Root>{{"n0", {n[0]}, O(u.S)}, {"[n0, n1, None, n0]", {n[0], n[1], N(), n[0]}, O(u.S)}, {"ob0", {O(u.ob[0])}, u.OBJ}, {"[ob0, ob1, 5, None, n3]", {O(u.ob[0]), O(u.ob[1]), I(5), N(), O(u.n[3])}, u.OBJ},
                                     {"[l0, l1]", {O(u.l[0]), O(u.l[1])}, u.LS}, {"d0", {O(u.d[0])}, u.DS}, {"S", {O(u.S)}, u.SCH}, {"[S2, INT32]", {O(u.S2), u.INT}, u.SCH}, {"no entities", {N()}, O(u.S)}})
      CheckRoot(u, w, r);
    const DataBagImpl& bag = *w.w[0].bag;
    const std::vector<const DataBagImpl*> fb{w.w[1].bag.get()};
    const Stack st{&w.w[0].m, &w.w[1].m};
    for (auto& [x, s, y, t] : std::vector<std::tuple<DataItem, DataItem, DataItem, DataItem>>{{n[0], O(u.S), n[1], O(u.S)}, {n[1], O(u.S), n[0], O(u.S)}, {O(u.ob[0]), u.OBJ, O(u.ob[1]), u.OBJ}, {O(u.ob[1]), u.OBJ, O(u.n[3]), u.OBJ}, {O(u.n[3]), u.OBJ, n[1], O(u.S)}, {O(u.l[0]), u.LS, O(u.l[1]), u.LS}, {O(u.d[0]), u.DS, O(u.d[1]), u.DS}})
      CheckEquivalent(bag, st, fb, {x}, s, bag, st, fb, {y}, t, Str(x) + " and " + Str(y));
    const Stack was{&before.w[0].m, &before.w[1].m};
    for (auto& [x, t] : std::vector<std::pair<Items_, DataItem>>{{{n[0], n[1]}, O(u.S)}, {{O(u.ob[0]), O(u.ob[1]), O(u.n[3])}, u.OBJ}})
      if (!h.empty()) CheckEquivalent(*before.w[0].bag, was, {before.w[1].bag.get()}, x, t, bag, st, fb, x, t, Str(x) + " before and after");
    CheckSchemaBag(u, w);
    *out = w.w[0].m.Digest() + "|" + w.w[1].m.Digest();
  }};
}
}  // namespace

std::vector<Shard> Families() {
  const auto end = std::nullopt;
  auto make_ops = [&](const Uni& u, bool full) {
    auto n = [&](int i) { return O(u.n[i]); };
    Items_ all{n(0), n(1), n(2), n(3)};
    std::vector<Op2> r;
    auto add = [&](Op o, int k = 0) { r.push_back(On(k, std::move(o))); };
    add(SetItem("n0.a=1", u.n[0], "a", I(1))); add(SetItem("n1.a=1", u.n[1], "a", I(1)));
    if (full) { std::vector<OptItem> v(u.N_.Capacity(), OptItem(I(3))); v[1] = end; add(SetFull("full N.a=[3,unset,3,3]", u.N_, "a", v)); }
    add(SetItem("n0.next=n1", u.n[0], "next", n(1))); add(SetItem("n1.next=n0", u.n[1], "next", n(0))); add(SetItem("n1.next=n1", u.n[1], "next", n(1))); add(SetItem("n0.next=None", u.n[0], "next", N()));
    add(SetSlice("N.next=[n2,n2,n3,None]", all, "next", {n(2), n(2), n(3), N()}));
    add(SetItem("n0.l=l0", u.n[0], "l", O(u.l[0]))); add(SetItem("n1.l=l1", u.n[1], "l", O(u.l[1]))); add(LExtend("l0.extend([n1,n2])", u.l[0], {n(1), n(2)})); add(LAppend("l1.append(n2)", u.l[1], n(2))); add(LReplace("l0[0:]=[]", u.l[0], 0, end, {})); add(LAppend("l1.append(n1)", u.l[1], n(1))); 
    add(SetItem("n0.d=d0", u.n[0], "d", O(u.d[0]))); add(DSetOp("d0['k']=n1", u.d[0], T("k"), n(1))); add(DSetOp("d0['j']=None", u.d[0], T("j"), N())); add(DSetOp("d1['k']=n0", u.d[1], T("k"), n(0))); add(DSetOp("d1['k']=n1", u.d[1], T("k"), n(1)));
    add(SetItem("n0.o=ob0", u.n[0], "o", O(u.ob[0]))); add(SetItem("n1.o=n3", u.n[1], "o", n(3))); add(SetItem("n1.o=7", u.n[1], "o", I(7))); add(SetItem("ob0.o=ob1", u.ob[0], "o", O(u.ob[1]))); add(SetItem("ob1.o=ob0", u.ob[1], "o", O(u.ob[0]))); add(SetItem("ob0.o=l0", u.ob[0], "o", O(u.l[0]))); add(SetItem("ob1.o=d0", u.ob[1], "o", O(u.d[0])));
    add(SetSlice("[ob0,ob1].e=[n0,n1]", {O(u.ob[0]), O(u.ob[1])}, "e", {n(0), n(1)})); add(SetSlice("[ob0,ob1].x=[1,'x']", {O(u.ob[0]), O(u.ob[1])}, "x", {I(1), T("x")})); add(SetItem("ob1.o=ob1", u.ob[1], "o", O(u.ob[1])));
    add(SetItem("n1.i=n0", u.n[1], "i", n(0))); add(SetItem("n2.t=S2", u.n[2], "t", O(u.S2))); add(SetItem("n0.f=n2", u.n[0], "f", n(2))); add(SetItem("n0.zz=5", u.n[0], "zz", I(5)));
    add(SDel("del S.next", u.S, "next")); add(SSet("S.next=ITEMID", u.S, "next", u.IID)); add(SetItem("n1.next=n3", u.n[1], "next", n(3))); add(SetItem("n1.d=d1", u.n[1], "d", O(u.d[1]))); add(SetSlice("[n0,n1].o=[n3,ob1]", {n(0), n(1)}, "o", {n(3), O(u.ob[1])})); add(SetItem("n3.next=n0", u.n[3], "next", n(0)));
    add(SetItem("n0.next=n2", u.n[0], "next", n(2)), 1); add(SetItem("n1.a=9", u.n[1], "a", I(9)), 1); add(DSetOp("d0['k']=n2", u.d[0], T("k"), n(2)), 1); add(LExtend("l0.extend([n3])", u.l[0], {n(3), N()}), 1); add(SetItem("ob0.o='text'", u.ob[0], "o", T("text")), 1); add(SetItem("ob1.e=n2", u.ob[1], "e", n(2)), 1);
    return r;
  };
  auto linked = [&](const Uni& u) {
    auto n = [&](int i) { return O(u.n[i]); };
    std::vector<Op2> r;
    auto add = [&](Op o, int k = 0) { r.push_back(On(k, std::move(o))); };
    add(SetSlice("", {n(0), n(1), n(2), n(3)}, "a", {I(1), I(2), I(1), I(2)})); add(SetItem("", u.n[0], "next", n(1))); add(SetItem("", u.n[0], "l", O(u.l[0]))); add(LExtend("", u.l[0], {n(1), n(2), N()})); add(SetItem("", u.n[2], "d", O(u.d[0]))); add(DSetOp("", u.d[0], T("k"), n(3))); add(SetItem("", u.n[1], "o", O(u.ob[0])));
    add(SetItem("", u.ob[0], "o", O(u.ob[1]))); add(SetItem("", u.ob[1], "e", n(3))); add(SetItem("", u.n[3], "o", O(u.l[0]))); add(SetItem("", u.n[3], "next", n(2)), 1);
    return r;
  };
  auto a = std::make_shared<Uni>(false, 4), s = std::make_shared<Uni>(true, 4), b = std::make_shared<Uni>(false, 100);
  return {Make("allocations", 2, a, {}, make_ops(*a, true), false), Make("single objects", 2, s, {}, make_ops(*s, false), true), Make("a large allocation", 2, b, {}, make_ops(*b, true), true),
          Make("linked allocations", 2, a, linked(*a), make_ops(*a, true), true), Make("linked single objects", 2, s, linked(*s), make_ops(*s, false), false)};
}
}  // namespace drv
