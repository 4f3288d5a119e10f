// B04: forks of a DataBag are isolated, and what was read from it stays as it was.
#include "bag.h"
namespace drv {
namespace {
struct Uni {
  AllocationId A = kd::internal::Allocate(4), H = kd::internal::Allocate(100), LA = kd::internal::AllocateLists(3), DA = kd::internal::AllocateDicts(3);
  ObjectId s0 = kd::internal::AllocateSingleObject(), s1 = kd::internal::AllocateSingleObject();
  ObjectId l = kd::internal::AllocateSingleList(), d = kd::internal::AllocateSingleDict();
  ObjectId a(int i) const { return A.ObjectByOffset(i); }
  ObjectId h(int i) const { return H.ObjectByOffset(i); }
  ObjectId la(int i) const { return LA.ObjectByOffset(i); }
  ObjectId da(int i) const { return DA.ObjectByOffset(i); }
};
const Uni& U_() { static const Uni* u = new Uni; return *u; }
Items_ Os(std::vector<ObjectId> v) { Items_ r; for (auto o : v) r.push_back(O(o)); return r; }

Op Sibling() {
  return {"Sibling()", [](World& w) {
    if (w.olds.empty()) return;
    auto [p, m] = w.olds.back();
    w.olds.emplace_back(w.bag, w.m);
    w.olds.emplace_back(p, m);  // stays the one siblings are made of
    w.bag = p->PartiallyPersistentFork();
    w.m = m;
    w.m.frozen = false;
  }};
}
Op Drop() { return {"Drop()", [](World& w) { w.olds.clear(); }}; }

using ReadAll = std::function<void(const DataBagImpl&, const Model&, const std::string&)>;
Shard Make(std::string name, int depth, std::vector<Op> ops, ReadAll read) {
  for (auto& op : {Fork(), Sibling(), Drop(), Freeze()}) ops.push_back(op);
  auto sh = std::make_shared<std::vector<Op>>(std::move(ops));
  return {name, Names(*sh), depth, [=](const std::vector<int>& h, std::string* st) {
    World w;
    for (int o : h) (*sh)[o].second(w);
    read(*w.bag, w.m, "");
    for (size_t i = 0; i < w.olds.size(); ++i) read(*w.olds[i].first, w.olds[i].second, "the bag left at fork " + std::to_string(i) + ": ");
    CheckCaptured(w);
    *st = w.m.Digest();
    for (auto& [b, m] : w.olds) *st += "|" + m.Digest();
  }};
}
}  // namespace

std::vector<Shard> Families() {
  auto& u = U_();
  const auto end = std::nullopt;
  Items_ A = Os({u.a(0), u.a(1), u.a(2), u.a(3)}), hs = Os({u.h(0), u.h(7), u.h(8), u.h(99)}), ss = Os({u.s0, u.s1});
  std::vector<OptItem> part(100);
  part[0] = N(); part[7] = T("full");
  std::vector<Op> attrs{
      SetItem("s0.a=1", u.s0, "a", I(1)), SetSlice("[s0,s1].a=[None,'x']", ss, "a", {N(), T("x")}),
      SetItem("a0.a=1", u.a(0), "a", I(1)), SetItem("a1.a=None", u.a(1), "a", N()), SetSlice("A.a=[2,3,None,4]", A, "a", {I(2), I(3), N(), I(4)}), SetSlice("A.a=['p',5,None,2.0]", A, "a", {T("p"), I(5), N(), F(2)}),
      SetFull("full A.a=[6,7,8,9]", u.A, "a", {I(6), I(7), I(8), I(9)}), SetFull("full A.a=[unset,removed,'q',unset]", u.A, "a", {end, N(), T("q"), end}), SetFull("full A.a=[removed]*4", u.A, "a", {N(), N(), N(), N()}),
      SetItem("h0.a=1", u.h(0), "a", I(1)), SetSlice("[h0,h7,h8,h99].a=[10,None,'r',11]", hs, "a", {I(10), N(), T("r"), I(11)}), SetFull("full H.a=[removed,...,'full',...]", u.H, "a", part),
      CaptureAttr("read A.a", {u.a(0), u.a(1), u.a(2), u.a(3)}, "a")};
  std::vector<Items_> sl{A, hs, {O(u.s0), O(u.a(2)), N(), O(u.h(0)), O(u.s1), O(u.a(0))}};
  std::vector<Op> dense{
      SetItem("a0.b=1", u.a(0), "b", I(1)),      SetItem("a0.a=1", u.a(0), "a", I(1)), SetItem("a0.a='x'", u.a(0), "a", T("x")), SetSlice("A.a=[2,3,None,4]", A, "a", {I(2), I(3), N(), I(4)}), SetSlice("A.a=['p',5,None,2.0]", A, "a", {T("p"), I(5), N(), F(2)}),
      SetFull("full A.a=[6,7,8,9]", u.A, "a", {I(6), I(7), I(8), I(9)}), SetFull("full A.a=[unset,removed,'q',unset]", u.A, "a", {end, N(), T("q"), end}), CaptureAttr("read A.a", {u.a(0), u.a(1), u.a(2), u.a(3)}, "a")};
  Items_ ls = Os({u.la(0), u.la(1), u.la(2)}), mixl = {O(u.l), O(u.la(0)), N(), O(u.la(0))};
  std::vector<Op> lists{
      LAppend("l.append(1)", u.l, I(1)), LAppendN("append L [1,'a',None]", ls, {I(1), T("a"), N()}), LExtendN("extend [l,L0,-,L0]", mixl, {{I(1), I(2)}, {T("z")}, {}, {N(), F(1)}}),
      LSet("l[0]='x'", u.l, 0, T("x")), LSetN("L[0,-1,0]=[7,8,9]", ls, {0, -1, 0}, {I(7), I(8), I(9)}), LReplaceN("L[0:1]=[[],[1,2],[3]]", ls, 0, 1, {{}, {I(1), I(2)}, {I(3)}}),
      LReplace("L0[0:]=[]", u.la(0), 0, end, {}), LRemoveN("del L[-1:]", ls, -1, end), LPop("l.pop(0)", u.l, 0), LPopN("L.pop(-1)", ls, {-1, -1, -1}), CaptureList("read l", u.l), CaptureList("read L0", u.la(0))};
  std::vector<Items_> lsl{ls, mixl};
  Items_ ds = Os({u.da(0), u.da(1), u.da(2)}), mixd = {O(u.d), O(u.da(0)), N(), O(u.da(0))};
  std::vector<Op> dicts{
      DSetOp("d[1]=1", u.d, I(1), I(1)), DSetOp("d['k']=None", u.d, T("k"), N()), DSetN("D[1,'k',1]=[1,'a',None]", ds, {I(1), T("k"), I(1)}, {I(1), T("a"), N()}), DSetN("[d,D0,-,D0]['k',1,1,2]=[5,6,7,8]", mixd, {T("k"), I(1), I(1), I(2)}, {I(5), I(6), I(7), I(8)}),
      DClearOp("clear d", u.d), DClearN("clear D", ds), DClearOp("clear D0", u.da(0)), DSetOp("D1[2]=2.0", u.da(1), I(2), F(2)), CaptureDict("read d, D", {O(u.d), O(u.da(0)), O(u.da(1))})};
  std::vector<Items_> dsl{ds, mixd};
  Items_ keys{I(1), T("k"), I(2), I(3)};
  Items_ most, ones, twos; for (int i = 20; i < 100; ++i) { most.push_back(O(u.h(i))); ones.push_back(I(1)); twos.push_back(i % 3 ? I(2) : i % 2 ? N() : T("t")); }
  std::vector<OptItem> whole(100, OptItem(I(5))); whole[8] = N();
  std::vector<Op> large{
      SetItem("h7.a=1", u.h(7), "a", I(1)), SetItem("h7.a=2", u.h(7), "a", I(2)), SetItem("h7.a=None", u.h(7), "a", N()), SetSlice("[h0,h7,h8,h99].a=[10,None,'r',11]", hs, "a", {I(10), N(), T("r"), I(11)}),
      SetSlice("h20..h99.a=1", most, "a", ones), SetSlice("h20..h99.a=mixed", most, "a", twos), SetFull("full H.a=[5,...,removed,5...]", u.H, "a", whole), SetFull("full H.a=[removed,...,'full',...]", u.H, "a", part)};
  std::vector<Items_> hsl{{O(u.h(7)), O(u.h(8)), N(), O(u.h(0)), O(u.h(20)), O(u.h(99)), O(u.h(21)), O(u.h(23))}};
  auto rh = [=](const DataBagImpl& b, const Model& m, const std::string& who) { ReadAttrs(b, {&m}, {}, hsl, {"a"}, who); };
  auto ra = [=](const DataBagImpl& b, const Model& m, const std::string& who) { ReadAttrs(b, {&m}, {}, sl, {"a"}, who); };
  auto rd = [=](const DataBagImpl& b, const Model& m, const std::string& who) { ReadAttrs(b, {&m}, {}, {A}, {"a"}, who); };
  auto rl = [=](const DataBagImpl& b, const Model& m, const std::string& who) { ReadLists(b, {&m}, {}, lsl, who); };
  auto rdc = [=](const DataBagImpl& b, const Model& m, const std::string& who) { ReadDicts(b, {&m}, {}, dsl, keys, who); };
  return {Make("attributes", 4, attrs, ra), Make("dense attributes", 5, dense, rd), Make("large allocation", 4, large, rh), Make("lists", 4, lists, rl), Make("dicts", 4, dicts, rdc)};
}
}  // namespace drv
