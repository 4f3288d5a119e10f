// B03: dicts of a DataBag are maps from keys to values.
#include "bag.h"
namespace drv {
namespace {
struct Uni {
  AllocationId A = kd::internal::AllocateDicts(3), B = kd::internal::AllocateDicts(40);
  ObjectId s0 = kd::internal::AllocateSingleDict(), s1 = kd::internal::AllocateSingleDict();
  ObjectId key = kd::internal::AllocateSingleObject();
  ObjectId a(int i) const { return A.ObjectByOffset(i); }
  ObjectId b(int i) const { return B.ObjectByOffset(i); }
};
const Uni& U_() { static const Uni* u = new Uni; return *u; }
Items_ Os(std::vector<ObjectId> v) { Items_ r; for (auto o : v) r.push_back(O(o)); return r; }
// Keys that look alike are told apart by type.
const Items_& Keys() { static const Items_ k{I(1), L(1), B(true), T("1"), Y("1"), O(U_().key), I(2), T("k"), N(), F(1), D(1), I(0), B(false), T("")}; return k; }

struct Fb { World w1, w2; };
const Fb& Fbs() {
  static const Fb* f = [] {
    auto* f = new Fb; auto& u = U_();
    for (auto& op : {DSetOp("", u.s0, I(1), I(101)), DSetOp("", u.s0, T("k"), N()), DSetOp("", u.a(0), I(2), T("f")), DSetOp("", u.a(2), T(""), I(1)), DSetOp("", u.b(33), I(1), I(2)), DSetOp("", u.s1, I(2), I(3)), DClearOp("", u.s1)}) op.second(f->w1);
    for (auto& op : {DSetOp("", u.s0, T("k"), F(2)), DSetOp("", u.s0, I(0), I(200)), DSetOp("", u.a(1), I(1), I(201)), DSetOp("", u.b(0), I(1), N()), DSetOp("", u.s1, I(2), T("g")), DSetOp("", u.s1, I(1), T("h"))}) op.second(f->w2);
    return f;
  }();
  return *f;
}
void Check(World& w, const std::vector<Items_>& sl) {
  auto& f = Fbs();
  ReadDicts(*w.bag, {&w.m}, {}, sl, Keys(), "");
  ReadDicts(*w.bag, {&w.m, &f.w1.m}, {f.w1.bag.get()}, sl, Keys(), "with a fallback: ");
  ReadDicts(*w.bag, {&w.m, &f.w2.m, &f.w1.m}, {f.w2.bag.get(), f.w1.bag.get()}, sl, Keys(), "with two fallbacks: ");
  ReadDicts(*f.w2.bag, {&f.w2.m, &w.m}, {w.bag.get()}, sl, Keys(), "as a fallback: ");
  CheckCaptured(w);
}
Shard Make(std::string name, int depth, std::vector<Op> ops, std::vector<Items_> sl) {
  auto sh = std::make_shared<std::vector<Op>>(std::move(ops));
  return {name, Names(*sh), depth, [=](const std::vector<int>& h, std::string* st) {
    World w;
    for (int o : h) (*sh)[o].second(w);
    Check(w, sl);
    *st = w.m.Digest();
  }};
}
void Errors(const std::vector<int>&, std::string* st) {
  auto& u = U_();
  DataItem obj = O(kd::internal::AllocateSingleObject()), list = O(kd::internal::AllocateSingleList());
  World w;
  DSetOp("", u.s0, I(1), I(2)).second(w);
  auto& b = *w.bag;
  for (auto& x : {obj, list, I(1), T("x")}) {
    NotOk(b.SetInDict(x, I(1), I(5)), "SetInDict of what is not a dict");
    NotOk(b.ClearDict(x), "ClearDict of what is not a dict");
    NotOk(b.GetFromDict(x, I(1)), "GetFromDict of what is not a dict");
    NotOk(b.GetDictSize(x), "GetDictSize of what is not a dict");
    NotOk(b.GetDictKeys(x), "GetDictKeys of what is not a dict");
    NotOk(b.GetDictValues(x), "GetDictValues of what is not a dict");
    auto xs = Slice({x, x}), ks = Slice({I(1), I(2)});
    NotOk(b.SetInDict(xs, ks, ks), "SetInDict of what are not dicts");
    NotOk(b.ClearDict(xs), "ClearDict of what are not dicts");
    NotOk(b.GetFromDict(xs, ks), "GetFromDict of what are not dicts");
    NotOk(b.GetDictSize(xs), "GetDictSize of what are not dicts");
    NotOk(b.GetDictKeys(xs), "GetDictKeys of what are not dicts");
    NotOk(b.GetDictValues(xs), "GetDictValues of what are not dicts");
  }
  Ok(b.SetInDict(N(), I(1), I(5)), "SetInDict of a missing item");
  Ok(b.ClearDict(N()), "ClearDict of a missing item");
  Eq(Ok(b.GetFromDict(N(), I(1)), "GetFromDict of a missing item"), N(), "GetFromDict of a missing item");
  Ok(b.SetInDict(Slice({N(), N()}), Slice({I(1), I(2)}), Slice({I(1), I(2)})), "SetInDict of missing items");
  Ok(b.ClearDict(Slice({N(), N()})), "ClearDict of missing items");
  Check(w, {Os({u.s0, u.a(0), u.a(1)})});
  *st = w.m.Digest();
}
}  // namespace

std::vector<Shard> Families() {
  auto& u = U_();
  std::vector<Op> one;
  for (auto& k : Keys()) if (!BadKey(k)) one.push_back(DSetOp("[" + Str(k) + "]=" , u.s0, k, T("v" + Str(k))));
  for (auto& k : {I(1), T("1"), O(u.key), B(true)}) one.push_back(DSetOp("[" + Str(k) + "]=None", u.s0, k, N()));
  for (auto& op : {DSetOp("[1]=7", u.s0, I(1), I(7)), DSetOp("[None]=8", u.s0, N(), I(8)), DSetOp("[f1]=8", u.s0, F(1), I(8)), DSetOp("[d1]=8", u.s0, D(1), I(8)), DClearOp("clear()", u.s0), Freeze(), CaptureDict("read", Os({u.s0}))}) one.push_back(op);
  auto several = [&](std::string p, Items_ ds, ObjectId x, ObjectId y) {
    Items_ dup = {ds[0], ds[0], ds[1], N(), ds[0]}, gap = {ds[0], N(), ds[2], ds[1]};
    return std::vector<Op>{
      DSetN(p + "[x,y,z][1,'k',2]=[1,'a',None]", ds, {I(1), T("k"), I(2)}, {I(1), T("a"), N()}), DSetN(p + "[x,y,z][None,1.0,l1]=[2,3,4]", ds, {N(), F(1), L(1)}, {I(2), I(3), I(4)}), DSetN(p + "[x,y,z][None,1,l1]=[2,3,4]", ds, {N(), I(1), L(1)}, {I(2), I(3), I(4)}),
      DSetN(p + "[x,x,y,-,x][1,2,1,1,1]=[5,6,7,8,9]", dup, {I(1), I(2), I(1), I(1), I(1)}, {I(5), I(6), I(7), I(8), I(9)}), DSetN(p + "[x,-,z,y][1,1,'1',id]=['b',1,2.0,3]", gap, {I(1), I(1), T("1"), O(u.key)}, {T("b"), I(1), F(2), I(3)}),
      DSetN(p + "[x,y,z]['k','k','k']=[1,2,3]", ds, {T("k"), T("k"), T("k")}, {I(1), I(2), I(3)}), DSetN(p + "[x,y,z][1,1,1]=[None]*3", ds, {I(1), I(1), I(1)}, {N(), N(), N()}),
      DClearN(p + "clear [x,y,z]", ds), DClearN(p + "clear [x,-,x]", {ds[0], N(), ds[0]}), DClearOp(p + "clear y", y), DSetOp(p + "x['']=id", x, T(""), O(u.key)), DSetOp(p + "y[b'1']=1", y, Y("1"), I(1)),
      DSetOp(p + "x[l1]=2", x, L(1), I(2)), Freeze(), CaptureDict(p + "read", ds)};
  };
  Items_ small = Os({u.s0, u.s1, u.a(1)}), alloc = Os({u.a(0), u.a(1), u.a(2)}), wide = Os({u.b(33), u.b(0), u.b(39)});
  return {Make("one", 3, one, {{O(u.s0)}, {O(u.s1), O(u.s0), N()}}),
          Make("single dicts", 4, several("", small, u.s0, u.s1), {small, {O(u.a(1)), N(), O(u.s0), O(u.s0)}, {}}),
          Make("an allocation", 4, several("", alloc, u.a(0), u.a(1)), {alloc, {O(u.a(2)), N(), O(u.s0), O(u.a(2))}, {N()}}),
          Make("a wide allocation", 3, several("", wide, u.b(33), u.b(0)), {wide, {O(u.b(1)), O(u.s0), N(), O(u.a(1)), O(u.b(33))}}),
          {"errors", {}, 0, Errors}};
}
}  // namespace drv
