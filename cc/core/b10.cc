// B10: pointwise and shape operations on slices do what they do to vectors of items.
#include "bag.h"
#include "arolla/dense_array/edge.h"
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "koladata/internal/op_utils/at.h"
#include "koladata/internal/op_utils/coalesce_with_filtered.h"
#include "koladata/internal/op_utils/collapse.h"
#include "koladata/internal/op_utils/equal.h"
#include "koladata/internal/op_utils/expand.h"
#include "koladata/internal/op_utils/has.h"
#include "koladata/internal/op_utils/inverse_select.h"
#include "koladata/internal/op_utils/presence_and.h"
#include "koladata/internal/op_utils/presence_or.h"
#include "koladata/internal/op_utils/reverse.h"
#include "koladata/internal/op_utils/select.h"
namespace drv {
namespace {
using kd::internal::AtOp;
using kd::internal::CoalesceWithFiltered;
using kd::internal::CollapseOp;
using kd::internal::EqualOp;
using kd::internal::ExpandOp;
using kd::internal::HasOp;
using kd::internal::InverseSelectOp;
using kd::internal::PresenceAndOp;
using kd::internal::ReverseOp;
using kd::internal::SelectOp;
using Or = kd::internal::PresenceOrOp<false>;
using DisjointOr = kd::internal::PresenceOrOp<true>;
using Shape = arolla::JaggedDenseArrayShape;
using Dims = std::vector<std::vector<int>>;  // the sizes of the groups of each dimension

arolla::DenseArrayEdge Edge(const std::vector<int>& sizes) {
  std::vector<int64_t> sp{0};
  for (int s : sizes) sp.push_back(sp.back() + s);
  return *arolla::DenseArrayEdge::FromSplitPoints(arolla::CreateFullDenseArray(sp));
}
Shape MakeShape(const Dims& d) {
  Shape::EdgeVec e;
  for (auto& s : d) e.push_back(Edge(s));
  return *Shape::FromEdges(std::move(e));
}
Dims DimsOf(const Shape& s) {
  Dims r;
  for (auto& e : s.edges()) {
    auto sp = e.edge_values().values.span();
    std::vector<int> v; for (size_t i = 1; i < sp.size(); ++i) v.push_back(sp[i] - sp[i - 1]);
    r.push_back(v);
  }
  return r;
}
std::string StrDims(const Dims& d) {
  std::string r;
  for (auto& s : d) { r += "["; for (int x : s) r += std::to_string(x) + ","; r += "]"; }
  return r;
}
size_t Size(const Dims& d) { if (d.empty()) return 1; size_t n = 0; for (int x : d.back()) n += x; return n; }

// ---- The model.
double Num(const DataItem& v) { return v.holds_value<int32_t>() ? v.value<int32_t>() : v.holds_value<int64_t>() ? v.value<int64_t>() : v.holds_value<float>() ? v.value<float>() : v.value<double>(); }
bool IsNum(const DataItem& v) { return v.holds_value<int32_t>() || v.holds_value<int64_t>() || v.holds_value<float>() || v.holds_value<double>(); }
DataItem MHas(const DataItem& a) { return a.has_value() ? U() : N(); }
DataItem MAnd(const DataItem& a, const DataItem& m) { return m.has_value() ? a : N(); }
DataItem MOr(const DataItem& a, const DataItem& b) { return a.has_value() ? a : b; }
DataItem MEq(const DataItem& a, const DataItem& b) {
  if (!a.has_value() || !b.has_value()) return N();
  if (IsNum(a) && IsNum(b)) return Num(a) == Num(b) ? U() : N();
  return Same(a, b) ? U() : N();
}
template <typename F> Items_ Map(const Items_& a, const Items_& b, F f) { Items_ r; for (size_t i = 0; i < a.size(); ++i) r.push_back(f(a[i], b[i])); return r; }

// A slice with a model of it.
struct V { std::string name; DataSliceImpl s; Items_ m; };
// Built so that it has a type, although nothing is present.
DataSliceImpl TypedEmpty(const Items_& like) { return Ok(PresenceAndOp()(Slice(like), DataSliceImpl::Create(arolla::CreateEmptyDenseArray<arolla::Unit>(like.size()))), "&"); }
template <typename T> DataSliceImpl Typed(size_t n) { return DataSliceImpl::Create(arolla::CreateEmptyDenseArray<T>(n)); }

struct Uni {
  AllocationId A = kd::internal::Allocate(10), C = kd::internal::Allocate(10);
  ObjectId s = kd::internal::AllocateSingleObject();
  Items_ cyc(const Items_& p, size_t n) const { Items_ r; for (size_t i = 0; i < n; ++i) r.push_back(p[i % p.size()]); return r; }
  Items_ ints{I(1), I(2), N(), I(1)}, texts{T("a"), N(), T("b"), T("a")}, objs{O(A.ObjectByOffset(1)), N(), O(C.ObjectByOffset(2)), O(s)}, mixed{I(1), T("a"), O(A.ObjectByOffset(1)), N()}, mask{U(), N(), U(), U()},
      numbers{F(1), L(2), D(1), I(1)}, two{N(), T("a"), N(), I(7)}, other{O(C.ObjectByOffset(3)), I(2), O(A.ObjectByOffset(9)), T("a")}, none{N(), N(), N(), N()};
  std::vector<V> bases(size_t n) const {
    std::vector<V> r;
    auto add = [&](const char* name, const Items_& p) { auto v = cyc(p, n); r.push_back({name, Slice(v), v}); };
    add("ints", ints); add("texts", texts); add("objs", objs); add("mixed", mixed); add("mask", mask); add("numbers", numbers); add("two", two); add("other", other); add("unknown", none);
    auto e = cyc(none, n);
    r.push_back({"no ints", Typed<int32_t>(n), e});
    r.push_back({"no objs", Typed<ObjectId>(n), e});
    r.push_back({"no mask", Typed<arolla::Unit>(n), e});
    return r;
  }
};
const Uni& U_() { static const Uni* u = new Uni; return *u; }
const V& BaseOf(size_t k, size_t n) {
  static std::map<size_t, std::vector<V>> memo;
  auto it = memo.find(n);
  if (it == memo.end()) it = memo.emplace(n, U_().bases(n)).first;
  return it->second[k];
}
const size_t kBases = 12;

struct St { DataSliceImpl s; Items_ m; Dims d; };
struct Skip {};
void CheckSlice(const St& x, const char* what) { EqSlice(x.s, x.m, what); if (Size(x.d) != x.m.size()) throw Skip(); }
arolla::DenseArray<int64_t> Idx(const std::vector<std::optional<int64_t>>& v) {
  arolla::DenseArrayBuilder<int64_t> b(v.size());
  for (size_t i = 0; i < v.size(); ++i) if (v[i]) b.Set(i, *v[i]);
  return std::move(b).Build();
}
using Op = std::pair<std::string, std::function<void(St&)>>;

Op At(std::string name, std::vector<std::optional<int64_t>> idx) {
  return {name, [=](St& x) {
    x.s = Ok(AtOp(x.s, Idx(idx)), "at");
    Items_ r; const int64_t n = x.m.size();
    for (auto i : idx) { if (i && *i < 0) *i += n; r.push_back(i && *i >= 0 && *i < n ? x.m[*i] : N()); }
    x.m = r; x.d = {{(int)r.size()}};
  }};
}
Op Reshape(Dims d) { return {"shape " + StrDims(d), [=](St& x) { if (Size(d) != x.m.size() || DimsOf(MakeShape(x.d)) == d) throw Skip(); x.d = d; }}; }
Op And(size_t k) {
  return {"& " + U_().bases(1)[k].name, [=](St& x) {
    const V& b = BaseOf(k, x.m.size());
    auto r = PresenceAndOp()(x.s, b.s);
    bool mask = true; for (auto& v : b.m) mask &= !v.has_value() || v.holds_value<arolla::Unit>();
    bool any = false; for (auto& v : b.m) any |= v.has_value();
    if (!mask) { NotOk(r, "& with a value that is no mask"); throw Skip(); }
    if (!any && !r.ok()) throw Skip();  // a typed slice that is empty: no mask either
    x.s = Ok(r, "&"); x.m = Map(x.m, b.m, MAnd);
  }};
}
void CheckDisjoint(const absl::StatusOr<DataSliceImpl>& r, const Items_& a, const Items_& b) {
  ++g.reads;
  Items_ l, rr, ix;
  for (size_t i = 0; i < a.size(); ++i) if (a[i].has_value() && b[i].has_value()) { l.push_back(a[i]); rr.push_back(b[i]); ix.push_back(L(i)); }
  if (r.ok() != l.empty()) Fail(std::string("disjoint | ") + (l.empty() ? "fails: " + r.status().ToString() : "must fail") + " for " + Str(a) + " and " + Str(b));
  if (r.ok()) { EqSlice(*r, Map(a, b, MOr), "disjoint |"); return; }
  if (auto* p = arolla::GetPayload<kd::internal::PresenceOrIntersectionError>(r.status())) {
    EqSlice(p->lhs_overlap, l, "the left overlap of the error"); EqSlice(p->rhs_overlap, rr, "the right overlap of the error"); EqSlice(p->indices_overlap, ix, "the indices of the error");
  }
}
Op OrWith(size_t k, bool left) {
  const std::string n = U_().bases(1)[k].name;
  return {left ? n + " | x" : "x | " + n, [=](St& x) {
    const V& b = BaseOf(k, x.m.size());
    auto &p = left ? b.s : x.s, &q = left ? x.s : b.s;
    const Items_ a = left ? b.m : x.m, c = left ? x.m : b.m;
    auto dj = DisjointOr()(p, q);
    CheckDisjoint(dj, a, c);
    x.s = Ok(Or()(p, q), "|"); x.m = Map(a, c, MOr);
  }};
}
Op OrItem(std::string name, DataItem v) {
  return {"| " + name, [=](St& x) {
    Items_ vs(x.m.size(), v);
    CheckDisjoint(DisjointOr()(x.s, v), x.m, vs);
    x.s = Ok(Or()(x.s, v), "| item"); x.m = Map(x.m, vs, MOr);
  }};
}
Op EqualTo(size_t k) {
  return {"== " + U_().bases(1)[k].name, [=](St& x) {
    const V& b = BaseOf(k, x.m.size());
    const Items_ want = Map(x.m, b.m, MEq);
    EqSlice(Ok(EqualOp()(b.s, x.s), "=="), want, "== the other way round");
    x.s = Ok(EqualOp()(x.s, b.s), "=="); x.m = want;
  }};
}
Op Filtered(size_t f, size_t k) {
  auto n = [&](size_t i) { return U_().bases(1)[i].name; };
  return {"x | (" + n(k) + " & has " + n(f) + ")", [=](St& x) {
    const V &b = BaseOf(k, x.m.size()), &c = BaseOf(f, x.m.size());
    x.s = Ok(CoalesceWithFiltered(c.s, x.s, b.s), "coalesce_with_filtered");
    x.m = Map(x.m, Map(b.m, Map(c.m, c.m, [](auto& p, auto&) { return MHas(p); }), MAnd), MOr);
  }};
}
// `drop`: how many dimensions the filter has less than the slice.
Op Select(size_t k, size_t drop) {
  return {"select " + U_().bases(1)[k].name + (drop ? " of a rank " + std::to_string(drop) + " less" : ""), [=](St& x) {
    if (x.d.size() < drop + 1) {
      if (x.d.size() == drop) { NotOk(SelectOp()(x.s, MakeShape(x.d), BaseOf(k, 1).s, MakeShape({})), "select by an item"); }
      throw Skip();
    }
    Dims fd(x.d.begin(), x.d.end() - drop);
    const V& b = BaseOf(k, Size(fd));
    const Shape shape = MakeShape(x.d), fshape = MakeShape(fd);
    auto r = SelectOp()(x.s, shape, b.s, fshape);
    bool mask = true; for (auto& v : b.m) mask &= !v.has_value() || v.holds_value<arolla::Unit>();
    if (!mask) { NotOk(r, "select with a filter that is no mask"); throw Skip(); }
    auto got = Ok(std::move(r), "select");
    // Groups of the dimension of the filter keep the present ones.
    Dims d(fd.begin(), fd.end() - 1);
    std::vector<bool> keep; for (auto& v : b.m) keep.push_back(v.has_value());
    std::vector<int> counts; size_t pos = 0;
    for (int n : fd.back()) { int c = 0; for (int i = 0; i < n; ++i) c += keep[pos++]; counts.push_back(c); }
    d.push_back(counts);
    for (size_t k2 = fd.size(); k2 < x.d.size(); ++k2) {
      std::vector<int> sizes; std::vector<bool> next;
      for (size_t i = 0; i < x.d[k2].size(); ++i) { if (keep[i]) sizes.push_back(x.d[k2][i]); next.insert(next.end(), x.d[k2][i], keep[i]); }
      d.push_back(sizes); keep = next;
    }
    Items_ m; for (size_t i = 0; i < x.m.size(); ++i) if (keep[i]) m.push_back(x.m[i]);
    ++g.reads;
    if (DimsOf(got.shape) != d) Fail("select: the shape is " + StrDims(DimsOf(got.shape)) + ", must be " + StrDims(d));
    EqSlice(got.data_slice_impl, m, "select");
    if (drop == 0) {
      EqSlice(Ok(InverseSelectOp()(got.data_slice_impl, got.shape, b.s, fshape), "inverse_select"), Map(x.m, b.m, MAnd), "inverse_select");
      if (x.m.size() != m.size()) NotOk(InverseSelectOp()(x.s, shape, b.s, fshape), "inverse_select of a shape that is not the selected one");
      const Dims flat{{(int)m.size()}};
      if (d != flat) NotOk(InverseSelectOp()(got.data_slice_impl, MakeShape(flat), b.s, fshape), "inverse_select of the selected items in another shape");
      Dims swapped = d; std::reverse(swapped.back().begin(), swapped.back().end());
      if (swapped != d) NotOk(InverseSelectOp()(got.data_slice_impl, MakeShape(swapped), b.s, fshape), "inverse_select of the selected items in groups of other sizes");
    }
    x.s = got.data_slice_impl; x.m = m; x.d = d;
  }};
}
Op Collapse() {
  return {"collapse", [](St& x) {
    if (x.d.empty()) throw Skip();
    Items_ r; size_t pos = 0;
    for (int n : x.d.back()) {
      DataItem v; bool same = true;
      for (int i = 0; i < n; ++i, ++pos) if (x.m[pos].has_value()) { if (!v.has_value()) v = x.m[pos]; else same &= Same(v, x.m[pos]); }
      r.push_back(same ? v : N());
    }
    x.s = Ok(CollapseOp()(x.s, Edge(x.d.back())), "collapse"); x.m = r; x.d.pop_back();
  }};
}
Op Expand(std::vector<int> pattern) {
  return {"expand " + StrDims({pattern}), [=](St& x) {
    std::vector<int> sizes; Items_ r;
    for (size_t i = 0; i < x.m.size(); ++i) { sizes.push_back(pattern[i % pattern.size()]); for (int j = 0; j < sizes.back(); ++j) r.push_back(x.m[i]); }
    if (r.size() > 12) throw Skip();
    auto e = Edge(sizes);
    x.s = Ok(ExpandOp()(x.s, e), "expand");
    auto m = *arolla::DenseArrayEdge::FromMapping([&] { std::vector<int64_t> v; for (size_t i = 0; i < sizes.size(); ++i) v.insert(v.end(), sizes[i], i); return arolla::CreateFullDenseArray(v); }(), sizes.size());
    Items_ old = x.m;
    x.m = r; x.d.push_back(sizes);
  }};
}
Op Reverse() {
  return {"reverse", [](St& x) {
    x.s = ReverseOp()(x.s, MakeShape(x.d));
    if (x.d.empty()) return;
    size_t pos = 0;
    for (int n : x.d.back()) { std::reverse(x.m.begin() + pos, x.m.begin() + pos + n); pos += n; }
  }};
}

Shard Make(size_t base, int depth) {
  std::vector<Op> ops{Reverse(), Collapse(), Expand({2, 0, 1}), Expand({1}), {"has", [](St& x) { x.s = Ok(HasOp()(x.s), "has"); x.m = Map(x.m, x.m, [](auto& a, auto&) { return MHas(a); }); }},
    At("at [0,-1,None,1,-9,9,2]", {0, -1, std::nullopt, 1, -9, 9, 2}), At("at []", {}), At("at [-1,-2,-2]", {-1, -2, -2}), At("at [3,2,1,0]", {3, 2, 1, 0}), At("at [1]", {1}),
    Reshape({{2}, {3, 1}}), Reshape({{3}, {2, 0, 2}}), Reshape({{2}, {2, 1}, {1, 2, 1}}), Reshape({{3}, {0, 3, 0}}), Reshape({{4}}), Reshape({}), 
    And(4), And(0), And(8), And(11), Select(4, 0), Select(4, 1), Select(8, 0), Select(11, 1), Select(7, 0),
    Filtered(0, 7), Filtered(10, 3), OrItem("1", I(1)), OrItem("missing", N()), OrItem("an object", O(U_().A.ObjectByOffset(5))), 
    {"& unit", [](St& x) { NotOk(PresenceAndOp()(x.s, I(1)), "& 1"); x.s = Ok(PresenceAndOp()(x.s, U()), "& unit"); }}, {"& missing item", [](St& x) { x.s = Ok(PresenceAndOp()(x.s, N()), "& missing"); x.m.assign(x.m.size(), N()); }}};
  for (size_t k : {0, 1, 2, 3, 6, 7, 8, 9, 10}) { ops.push_back(OrWith(k, false)); ops.push_back(OrWith(k, true)); }
  for (size_t k : {0, 1, 2, 3, 5}) ops.push_back(EqualTo(k));
  std::vector<std::string> names;
  for (auto& o : ops) names.push_back(o.first);
  auto sh = std::make_shared<std::vector<Op>>(std::move(ops));
  return {U_().bases(1)[base].name, names, depth, [=](const std::vector<int>& h, std::string* st) {
    const V& b = BaseOf(base, 4);
    St x{b.s, b.m, {{4}}};
    CheckSlice(x, "x");
    try {
      for (int o : h) { St was = x; (*sh)[o].second(x); if (&o == &h.back()) { CheckSlice(x, "x"); EqSlice(was.s, was.m, "the slice before"); } }
    } catch (Skip) { ++g.skipped; return; }
    // Sizes that do not fit.
    const V& more = BaseOf(0, x.m.size() + 1);
    NotOk(Or()(x.s, more.s), "| of another size"); NotOk(Or()(more.s, x.s), "| of another size"); NotOk(EqualOp()(x.s, more.s), "== of another size"); NotOk(PresenceAndOp()(x.s, BaseOf(4, x.m.size() + 1).s), "& of another size");
    if (!x.d.empty()) {
      auto more_rank = x.d; more_rank.push_back(std::vector<int>(x.m.size(), 1));
      NotOk(SelectOp()(x.s, MakeShape(x.d), BaseOf(4, x.m.size()).s, MakeShape(more_rank)), "select by a filter of a higher rank");
      auto bigger = x.d; if (!bigger.back().empty()) bigger.back().back() += 1;
      if (bigger != x.d) NotOk(SelectOp()(x.s, MakeShape(x.d), BaseOf(4, x.m.size() + 1).s, MakeShape(bigger)), "select by a filter of another shape");
    }
    *st = Str(x.m) + StrDims(x.d);
  }};
}

// The same operations on items.
Shard OnItems() {
  auto& u = U_();
  const Items_ vs{N(), I(1), I(2), L(1), F(1), D(2), T("a"), Y("a"), U(), B(true), O(u.s), O(u.A.ObjectByOffset(1)), DataItem(kd::schema::kInt32)};
  std::vector<std::string> names;
  for (auto& v : vs) names.push_back(Str(v));
  return {"items", names, 3, [=](const std::vector<int>& h, std::string* st) {
    if (h.empty()) return;
    const DataItem& a = vs[h[0]];
    Eq(Ok(HasOp()(a), "has"), MHas(a), "has");
    auto e = Edge({3});
    EqSlice(Ok(ExpandOp()(a, e), "expand"), {a, a, a}, "an expanded item");
    auto e0 = Edge({0});
    EqSlice(Ok(ExpandOp()(a, e0), "expand"), {}, "an item expanded to nothing");
    if (h.size() >= 2) {
      const DataItem& b = vs[h[1]];
      Eq(EqualOp()(a, b), MEq(a, b), "==");
      Eq(Ok(Or()(a, b), "|"), MOr(a, b), "|");
      auto dj = DisjointOr()(a, b);
      if (dj.ok() == (a.has_value() && b.has_value())) Fail("disjoint | of items");
      if (dj.ok()) Eq(*dj, MOr(a, b), "disjoint |");
      auto r = PresenceAndOp()(a, b);
      if (r.ok() != (!b.has_value() || b.holds_value<arolla::Unit>())) Fail("& of items");
      if (r.ok()) Eq(*r, MAnd(a, b), "&");
      if (h.size() == 3) Eq(Ok(CoalesceWithFiltered(a, b, vs[h[2]]), "coalesce_with_filtered"), MOr(b, MAnd(vs[h[2]], MHas(a))), "coalesce_with_filtered");
    }
    for (int o : h) *st += std::to_string(o) + ",";
  }};
}
}  // namespace

std::vector<Shard> Families() {
  std::vector<Shard> r{OnItems()};
  for (size_t b = 0; b < kBases; ++b) r.push_back(Make(b, 3));
  return r;
}
}  // namespace drv
