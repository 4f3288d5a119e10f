// B02: lists of a DataBag behave as Python lists.
#include "bag.h"
namespace drv {
namespace {
struct Uni {
  AllocationId A = kd::internal::AllocateLists(3), B = kd::internal::AllocateLists(40);
  ObjectId s0 = kd::internal::AllocateSingleList(), s1 = kd::internal::AllocateSingleList();
  ObjectId o = kd::internal::Allocate(9).ObjectByOffset(3), p = kd::internal::Allocate(50).ObjectByOffset(4);
  ObjectId a(int i) const { return A.ObjectByOffset(i); }
  ObjectId b(int i) const { return B.ObjectByOffset(i); }
};
const Uni& U_() { static const Uni* u = new Uni; return *u; }
Items_ Os(std::vector<ObjectId> v) { Items_ r; for (auto o : v) r.push_back(O(o)); return r; }

struct Fb { World w1, w2; };
const Fb& Fbs() {
  static const Fb* f = [] {
    auto* f = new Fb; auto& u = U_();
    for (auto& op : {LExtend("", u.s0, {I(100), T("f"), N()}), LExtend("", u.a(0), {I(101)}), LExtend("", u.a(2), {T("u"), T("v"), T("w"), T("x")}), LExtend("", u.b(33), {I(133)})}) op.second(f->w1);
    for (auto& op : {LExtend("", u.s0, {I(200)}), LExtend("", u.s1, {F(1), N()}), LExtend("", u.a(1), {I(1), I(2), I(3)}), LReplace("", u.a(2), 0, std::nullopt, {}), LExtend("", u.b(0), {N()})}) op.second(f->w2);
    return f;
  }();
  return *f;
}
void Check(World& w, const std::vector<Items_>& sl) {
  auto& f = Fbs();
  ReadLists(*w.bag, {&w.m}, {}, sl, "");
  ReadLists(*w.bag, {&w.m, &f.w1.m}, {f.w1.bag.get()}, sl, "with a fallback: ");
  ReadLists(*w.bag, {&w.m, &f.w2.m, &f.w1.m}, {f.w2.bag.get(), f.w1.bag.get()}, sl, "with two fallbacks: ");
  ReadLists(*f.w2.bag, {&f.w2.m, &w.m}, {w.bag.get()}, sl, "as a fallback: ");
  CheckCaptured(w);
}
Shard Make(std::string name, int depth, std::vector<Op> ops, std::vector<Items_> sl) {
  auto sh = std::make_shared<std::vector<Op>>(std::move(ops));
  return {name, Names(*sh), depth, [=](const std::vector<int>& h, std::string* st) {
    World w;
    for (int o : h) (*sh)[o].second(w);
    Check(w, sl);
    *st = w.m.Digest();
  }};
}
void Errors(const std::vector<int>&, std::string* st) {
  auto& u = U_();
  DataItem obj = O(kd::internal::AllocateSingleObject()), dict = O(kd::internal::AllocateSingleDict());
  World w;
  LExtend("", u.s0, {I(1), I(2)}).second(w);
  LExtend("", u.a(0), {I(3)}).second(w);
  const Model before = w.m;
  auto& b = *w.bag;
  for (auto& x : {obj, dict, I(1), T("x")}) {
    NotOk(b.AppendToList(x, I(5)), "AppendToList to what is not a list");
    NotOk(b.ExtendList(x, Slice({I(5)})), "ExtendList of what is not a list");
    NotOk(b.SetInList(x, 0, I(5)), "SetInList of what is not a list");
    NotOk(b.ReplaceInList(x, Range(), Slice({I(5)})), "ReplaceInList of what is not a list");
    NotOk(b.RemoveInList(x, Range()), "RemoveInList of what is not a list");
    NotOk(b.PopFromList(x, 0), "PopFromList of what is not a list");
    NotOk(b.GetListSize(x), "GetListSize of what is not a list");
    NotOk(b.GetFromList(x, 0), "GetFromList of what is not a list");
    NotOk(b.ExplodeList(x), "ExplodeList of what is not a list");
    auto xs = Slice({x, x});
    NotOk(b.AppendToList(xs, Slice({I(5), I(6)})), "AppendToList to what are not lists");
    NotOk(b.ExtendLists(xs, Slice({I(5), I(6)}), Edge({{N()}, {N()}})), "ExtendLists of what are not lists");
    NotOk(b.SetInLists(xs, Ints({0, 0}), Slice({I(5), I(6)})), "SetInLists of what are not lists");
    NotOk(b.ReplaceInLists(xs, Range(), Slice({I(5), I(6)}), Edge({{N()}, {N()}})), "ReplaceInLists of what are not lists");
    NotOk(b.RemoveInList(xs, Range()), "RemoveInList of what are not lists");
    NotOk(b.RemoveInList(xs, Ints({0, 0})), "RemoveInList of what are not lists");
    NotOk(b.PopFromLists(xs, Ints({0, 0})), "PopFromLists of what are not lists");
    NotOk(b.GetListSize(xs), "GetListSize of what are not lists");
    NotOk(b.GetFromLists(xs, Ints({0, 0})), "GetFromLists of what are not lists");
    NotOk(b.ExplodeLists(xs), "ExplodeLists of what are not lists");
  }
  for (auto& m : {N()}) {
    Ok(b.AppendToList(m, I(5)), "AppendToList of a missing item");
    Ok(b.ExtendList(m, Slice({I(5)})), "ExtendList of a missing item");
    Ok(b.SetInList(m, 0, I(5)), "SetInList of a missing item");
    Ok(b.ReplaceInList(m, Range(), Slice({I(5)})), "ReplaceInList of a missing item");
    Ok(b.RemoveInList(m, Range()), "RemoveInList of a missing item");
    Eq(Ok(b.PopFromList(m, 0), "PopFromList of a missing item"), N(), "PopFromList of a missing item");
    EqSlice(Ok(b.ExplodeList(m), "ExplodeList of a missing item"), {}, "ExplodeList of a missing item");
    Eq(Ok(b.GetFromList(m, 0), "GetFromList of a missing item"), N(), "GetFromList of a missing item");
    auto ms = Slice({m, m});
    Ok(b.AppendToList(ms, Slice({I(5), I(6)})), "AppendToList of missing items");
    Ok(b.ExtendLists(ms, Slice({I(5), I(6)}), Edge({{N()}, {N()}})), "ExtendLists of missing items");
    Ok(b.RemoveInList(ms, Range()), "RemoveInList of missing items");
    EqSlice(Ok(b.PopFromLists(ms, Ints({0, 0})), "PopFromLists of missing items"), {N(), N()}, "PopFromLists of missing items");
  }
  w.m = before;
  Check(w, {Os({u.s0, u.a(0), u.a(1)}), Os({u.a(2), u.b(33)})});  // nothing changed
  *st = w.m.Digest();
}
}  // namespace

std::vector<Shard> Families() {
  auto& u = U_();
  const auto end = std::nullopt;
  std::vector<Op> one{
      LAppend("append(1)", u.s0, I(1)), LAppend("append('x')", u.s0, T("x")), LAppend("append(None)", u.s0, N()),
      LExtend("extend([2,None,3])", u.s0, {I(2), N(), I(3)}), LExtend("extend(['y',2.0])", u.s0, {T("y"), F(2)}), LExtend("extend([None,o,p])", u.s0, {N(), O(u.o), O(u.p)}), LExtend("extend([])", u.s0, {}), LExtend("extend([None,None])", u.s0, {N(), N()}),
      LSet("[0]=9", u.s0, 0, I(9)), LSet("[-1]='z'", u.s0, -1, T("z")), LSet("[2]=None", u.s0, 2, N()), LSet("[-9]=8", u.s0, -9, I(8)),
      LReplace("[0:]=[4,5]", u.s0, 0, end, {I(4), I(5)}), LReplace("[1:2]=['r','s',6]", u.s0, 1, 2, {T("r"), T("s"), I(6)}), LReplace("[-1:]=[]", u.s0, -1, end, {}),
      LReplace("[1:-1]=[7]", u.s0, 1, -1, {I(7)}), LReplace("[2:0]=[0]", u.s0, 2, 0, {I(0)}), LReplace("[1:3]=[None,1]", u.s0, 1, 3, {N(), I(1)}),
      LRemove("del [0:]", u.s0, 0, end), LRemove("del [1:2]", u.s0, 1, 2), LRemove("del [-2:-1]", u.s0, -2, -1), LRemove("del [2:1]", u.s0, 2, 1),
      LPop("pop(0)", u.s0, 0), LPop("pop(-1)", u.s0, -1), LPop("pop(1)", u.s0, 1), LPop("pop(7)", u.s0, 7), Freeze(), CaptureList("read", u.s0)};
  auto several = [&](std::string p, Items_ ls, ObjectId x, ObjectId y) {
    Items_ dup = {ls[0], ls[0], ls[1], N()}, gap = {ls[0], N(), ls[2], ls[1]};
    return std::vector<Op>{
      LAppendN(p + "append [x,y,z] [1,'a',None]", ls, {I(1), T("a"), N()}), LAppendN(p + "append [x,x,y,-] [2,3,4,5]", dup, {I(2), I(3), I(4), I(5)}),
      LExtendN(p + "extend [x,y,z] [[1],[],['p','q']]", ls, {{I(1)}, {}, {T("p"), T("q")}}), LExtendN(p + "extend [x,-,z,y] [[1,2],[3],[4,None],[5.0]]", gap, {{I(1), I(2)}, {I(3)}, {I(4), N()}, {F(5)}}),
      LExtendN(p + "extend [x,x,y,-] [[1],[2,3],[4],[]]", dup, {{I(1)}, {I(2), I(3)}, {I(4)}, {}}),
      LSetN(p + "set [x,y,z][0,-1,2]=[7,'s',None]", ls, {0, -1, 2}, {I(7), T("s"), N()}), LSetN(p + "set [x,x,y,-][0,-,1,0]=[8,9,10,11]", dup, {0, end, 1, 0}, {I(8), I(9), I(10), I(11)}),
      LReplaceN(p + "replace [x,y,z][1:]=[[1],['r'],[]]", ls, 1, end, {{I(1)}, {T("r")}, {}}), LReplaceN(p + "replace [x,x,y,-][0:1]=[[1,2],[3],[],[4]]", dup, 0, 1, {{I(1), I(2)}, {I(3)}, {}, {I(4)}}),
      LReplaceN(p + "replace [x,-,z,y][-2:-1]=[[],[1],[2,3],[N]]", gap, -2, -1, {{}, {I(1)}, {I(2), I(3)}, {N()}}),
      LRemoveN(p + "del [x,y,z][1:]", ls, 1, end), LRemoveN(p + "del [x,x,y,-][0:1]", dup, 0, 1), LRemoveN(p + "del [x,y,z][-2:-1]", ls, -2, -1), LRemoveN(p + "del [x,y,z][0:]", ls, 0, end),
      LRemoveIdx(p + "del [x,y,z][0,-1,5]", ls, {0, -1, 5}), LRemoveIdx(p + "del [x,x,y,-][0,0,-,1]", dup, {0, 0, end, 1}),
      LPopN(p + "pop [x,y,z][0,-1,1]", ls, {0, -1, 1}), LPopN(p + "pop [x,x,y,-][-1,-1,-,0]", dup, {-1, -1, end, 0}),
      LAppend(p + "x.append(None)", x, N()), LPop(p + "y.pop(0)", y, 0), LReplace(p + "y[0:]=[]", y, 0, end, {}), Freeze(), CaptureList(p + "read x", x)};
  };
  Items_ small = Os({u.s0, u.s1, u.a(1)}), alloc = Os({u.a(0), u.a(1), u.a(2)}), wide = Os({u.b(33), u.b(0), u.b(39)});
  return {Make("one", 3, one, {{O(u.s0)}, {O(u.s1), O(u.s0), N()}}),
          Make("single lists", 3, several("", small, u.s0, u.s1), {small, {O(u.a(1)), N(), O(u.s0), O(u.s0)}, {}}),
          Make("an allocation", 3, several("", alloc, u.a(0), u.a(1)), {alloc, {O(u.a(2)), N(), O(u.s0), O(u.a(2))}, {N()}}),
          Make("a wide allocation", 2, several("", wide, u.b(33), u.b(0)), {wide, {O(u.b(1)), O(u.s0), N(), O(u.a(1)), O(u.b(33))}}),
          {"errors", {}, 0, Errors}};
}
}  // namespace drv
