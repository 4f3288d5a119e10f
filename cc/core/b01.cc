// B01: a DataBag is a map from (object, attribute) to value.
#include "bag.h"
namespace drv {
namespace {
struct Uni {
  AllocationId A = kd::internal::Allocate(5), H = kd::internal::Allocate(100), S2 = kd::internal::Allocate(2);
  ObjectId s0 = kd::internal::AllocateSingleObject(), s1 = S2.ObjectByOffset(0), s2 = S2.ObjectByOffset(1);
  ObjectId a(int i) const { return A.ObjectByOffset(i); }
  ObjectId h(int i) const { return H.ObjectByOffset(i); }
  std::vector<ObjectId> many;  // of more allocations than a batch looks up at once
  Uni() { for (int i = 0; i < 8; ++i) many.push_back(kd::internal::Allocate(3).ObjectByOffset(i % 3)); }
};
const Uni& U_() { static const Uni* u = new Uni; return *u; }
Items_ Os(std::vector<ObjectId> v) { Items_ r; for (auto o : v) r.push_back(O(o)); return r; }
Items_ AllA() { Items_ r; for (int i = 0; i < 5; ++i) r.push_back(O(U_().a(i))); return r; }

// Fallback bags, built once.
struct Fb { World w1, w2; };
const Fb& Fbs() {
  static const Fb* f = [] {
    auto* f = new Fb; auto& u = U_();
    for (auto& op : {SetSlice("", AllA(), "a", {I(101), I(102), I(103), N(), I(105)}), SetItem("", u.s0, "a", T("f1")),
                     SetItem("", u.h(63), "a", I(163)), SetSlice("", Os(u.many), "a", {I(1), N(), I(3), T("m"), I(5), I(6), I(7), I(8)}), SetItem("", u.s1, "b", N())})
      op.second(f->w1);
    for (auto& op : {SetItem("", u.a(3), "a", F(3.5)), SetItem("", u.h(0), "a", N()), SetItem("", u.h(1), "a", T("f2")), SetItem("", u.s2, "a", I(22)), SetItem("", u.a(0), "b", I(20)),
                     SetItem("", u.s1, "b", I(21)), SetSlice("", Os(u.many), "a", {I(11), I(12), I(13), I(14), I(15), N(), I(17), I(18)})})
      op.second(f->w2);
    return f;
  }();
  return *f;
}
std::vector<OptItem> Hundred(std::vector<OptItem> v, bool rest) {
  for (int i = v.size(); i < 100; ++i) v.push_back(rest ? OptItem(I(i)) : std::nullopt);
  return v;
}
std::vector<Items_> Slices() {
  auto& u = U_();
  Items_ full; for (int i = 0; i < 5; ++i) full.push_back(O(u.a(i)));
  Items_ rev(full.rbegin(), full.rend());
  return {full, rev, Os({u.h(0), u.h(1), u.h(63), u.h(99)}), {O(u.s0), O(u.s2), N(), O(u.a(1)), O(u.h(1)), O(u.a(1)), O(u.s1)},
          Os({u.s0, u.s1, u.s2}), Os(u.many), {O(u.a(4)), N()}, {N()}, {}};
}
void Check(World& w, const std::vector<Items_>& sl, const std::vector<std::string>& names) {
  auto& f = Fbs();
  ReadAttrs(*w.bag, {&w.m}, {}, sl, names, "");
  ReadAttrs(*w.bag, {&w.m, &f.w1.m}, {f.w1.bag.get()}, sl, names, "with a fallback: ");
  ReadAttrs(*f.w1.bag, {&f.w1.m, &w.m}, {w.bag.get()}, sl, names, "as a fallback: ");
  ReadAttrs(*w.bag, {&w.m, &f.w2.m, &f.w1.m}, {f.w2.bag.get(), f.w1.bag.get()}, sl, names, "with two fallbacks: ");
  CheckCaptured(w);
}
Shard Make(std::string name, int depth, std::vector<Op> ops, std::vector<Items_> sl, std::vector<std::string> names) {
  auto sh = std::make_shared<std::vector<Op>>(std::move(ops));
  return {name, Names(*sh), depth, [=](const std::vector<int>& h, std::string* st) {
    World w;
    for (int o : h) (*sh)[o].second(w);
    Check(w, sl, names);
    *st = w.m.Digest();
  }};
}
Op Unit_(std::string n, Items_ os, std::string a) {
  return {n, [=](World& w) {
    if (w.m.frozen) { NotOk(w.bag->InternalSetUnitAttrAndReturnMissingObjects(Slice(os), a), "InternalSetUnitAttrAndReturnMissingObjects on a frozen bag"); return; }
    auto r = Items(Ok(w.bag->InternalSetUnitAttrAndReturnMissingObjects(Slice(os), a), "InternalSetUnitAttrAndReturnMissingObjects"));
    std::set<std::string> want, got;
    for (auto& o : os) if (o.has_value()) { auto v = w.m.Attr(Id(o), a); if (!v || !v->has_value()) { want.insert(Str(o)); } }
    for (auto& o : os) if (o.has_value()) w.m.attrs[{a, Id(o)}] = U();
    for (auto& o : r) if (!got.insert(Str(o)).second) Fail("an object is returned twice");
    if (got != want) Fail("the objects returned by InternalSetUnitAttrAndReturnMissingObjects are " + Str(r));
  }};
}
void Errors(const std::vector<int>&, std::string* st) {
  auto& u = U_();
  World w;
  SetItem("", u.a(0), "a", I(1)).second(w);
  NotOk(w.bag->SetAttr(I(1), "a", I(2)), "SetAttr on a primitive");
  NotOk(w.bag->SetAttr(Slice({I(1), I(2)}), "a", Slice({I(2), I(3)})), "SetAttr on primitives");
  NotOk(w.bag->SetAttr(Slice({O(u.a(0)), I(2)}), "a", Slice({I(2), I(3)})), "SetAttr on objects and primitives");
  NotOk(w.bag->GetAttr(I(1), "a"), "GetAttr of a primitive");
  NotOk(w.bag->GetAttr(Slice({I(1)}), "a"), "GetAttr of primitives");
  NotOk(w.bag->GetAttr(Slice({O(u.a(0)), T("x")}), "a"), "GetAttr of objects and primitives");
  Ok(w.bag->SetAttr(N(), "a", I(2)), "SetAttr on a missing item");
  Ok(w.bag->SetAttr(Slice({N(), N()}), "a", Slice({I(2), I(3)})), "SetAttr on missing items");
  Eq(Ok(w.bag->GetAttr(N(), "a"), "GetAttr of a missing item"), N(), "GetAttr of a missing item");
  Check(w, Slices(), {"a", "b"});
  *st = w.m.Digest();
}
// New objects from attribute values.
void Create(const std::vector<int>& h, std::string* st) {
  static const std::vector<Items_> cols{{I(1), I(2), I(3)}, {T("x"), N(), T("z")}, {N(), N(), N()}, {I(1), T("a"), F(2)}};
  World w;
  std::vector<std::pair<Items_, std::vector<int>>> made;
  for (int o : h) {
    std::vector<int> cs{o % 4, o / 4};
    DataSliceImpl c0 = Slice(cols[cs[0]]), c1 = Slice(cols[cs[1]]);
    auto r = Items(Ok(w.bag->CreateObjectsFromFields({"a", "b"}, std::vector<std::reference_wrapper<const DataSliceImpl>>{std::cref(c0), std::cref(c1)}), "CreateObjectsFromFields"));
    DataItem i0 = cols[cs[0]][0], i1 = cols[cs[1]][0];
    auto one = Ok(w.bag->CreateObjectsFromFields({"a", "b"}, {std::cref(i0), std::cref(i1)}), "CreateObjectsFromFields");
    r.push_back(one);
    made.emplace_back(r, cs);
  }
  std::set<std::string> ids;
  for (auto& [r, cs] : made) {
    if (r.size() != 4) Fail("CreateObjectsFromFields returns another number of objects");
    Items_ w0(cols[cs[0]]), w1(cols[cs[1]]);
    w0.push_back(w0[0]); w1.push_back(w1[0]);
    for (auto& o : r) if (!o.holds_value<ObjectId>() || !ids.insert(Str(o)).second) Fail("CreateObjectsFromFields returns an object twice");
    for (int i = 0; i < 4; ++i) {
      Eq(Ok(w.bag->GetAttr(r[i], "a"), "GetAttr"), w0[i], "attribute a of a new object");
      Eq(Ok(w.bag->GetAttr(r[i], "b"), "GetAttr"), w1[i], "attribute b of a new object");
    }
    EqSlice(Ok(w.bag->GetAttr(Slice(r), "a"), "GetAttr"), w0, "attribute a of new objects");
    EqSlice(Ok(w.bag->GetAttr(Slice(r), "b"), "GetAttr"), w1, "attribute b of new objects");
  }
  *st = std::to_string(ids.size());
}
}  // namespace

std::vector<Shard> Families() {
  auto& u = U_();
  Items_ A = AllA();
  std::vector<Op> small{
      SetItem("s0.a=1", u.s0, "a", I(1)), SetItem("s0.a=None", u.s0, "a", N()), SetItem("s1.a='x'", u.s1, "a", T("x")),
      SetSlice("[s0,s1,s2].a=[2,None,3]", Os({u.s0, u.s1, u.s2}), "a", {I(2), N(), I(3)}),
      SetSlice("[s2,None,s0].a=['y',1,2.0]", {O(u.s2), N(), O(u.s0)}, "a", {T("y"), I(1), F(2)}),
      SetSlice("[s1,s1].a=[8,9]", Os({u.s1, u.s1}), "a", {I(8), I(9)}),
      SetFull("S2.a=[unset,removed]", u.S2, "a", {std::nullopt, N()}), SetFull("S2.a=[4,unset]", u.S2, "a", {I(4), std::nullopt}),
      SetSlice("[s0,a0].a=[5,6]", Os({u.s0, u.a(0)}), "a", {I(5), I(6)}),
      SetItem("s0.b=s1", u.s0, "b", O(u.s1)), SetItem("s1.b=7", u.s1, "b", I(7)),
      Freeze(),
      CaptureAttr("read [s0,s1,s2].a", {u.s0, u.s1, u.s2}, "a")};
  Items_ full; for (int i = 0; i < 5; ++i) full.push_back(O(u.a(i)));
  std::vector<Op> big{
      SetItem("a0.a=1", u.a(0), "a", I(1)), SetItem("a4.a=None", u.a(4), "a", N()), SetItem("a1.a='x'", u.a(1), "a", T("x")), SetItem("a2.a=2.0", u.a(2), "a", F(2)),
      SetSlice("A.a=[1,2,None,4,5]", A, "a", {I(1), I(2), N(), I(4), I(5)}),
      SetSlice("A.a=['p','q','r',None,'s']", A, "a", {T("p"), T("q"), T("r"), N(), T("s")}),
      SetSlice("A.a=[1,'m',None,a0,2.0]", A, "a", {I(1), T("m"), N(), O(u.a(0)), F(2)}),
      SetSlice("A.a=[None]*5", A, "a", {N(), N(), N(), N(), N()}),
      SetSlice("[a3,None,a3,a1].a=[7,8,9,10]", {O(u.a(3)), N(), O(u.a(3)), O(u.a(1))}, "a", {I(7), I(8), I(9), I(10)}),
      SetSlice("[a4,a2].a=['z','y']", Os({u.a(4), u.a(2)}), "a", {T("z"), T("y")}),
      SetSlice("[a0,s0,h0,a2].a=[11,12,13,14]", Os({u.a(0), u.s0, u.h(0), u.a(2)}), "a", {I(11), I(12), I(13), I(14)}),
      SetFull("full A.a=[unset,removed,5,'f',unset]", u.A, "a", {std::nullopt, N(), I(5), T("f"), std::nullopt}),
      SetFull("full A.a=[1,2,3,4,5]", u.A, "a", {I(1), I(2), I(3), I(4), I(5)}),
      SetFull("full A.a=[removed*3,unset,removed]", u.A, "a", {N(), N(), N(), std::nullopt, N()}),
      SetItem("a0.b=a1", u.a(0), "b", O(u.a(1))), Freeze(),
      CaptureAttr("read A.a", {u.a(0), u.a(1), u.a(2), u.a(3), u.a(4)}, "a")};
  Items_ mh = Os({u.h(0), u.h(1), u.h(63), u.h(99)});
  std::vector<Op> huge{
      SetItem("h0.a=1", u.h(0), "a", I(1)), SetItem("h0.a=None", u.h(0), "a", N()), SetItem("h63.a='x'", u.h(63), "a", T("x")),
      SetSlice("[h0,h1].a=[2,None]", Os({u.h(0), u.h(1)}), "a", {I(2), N()}), SetSlice("[h1,h1].a=[3,4]", Os({u.h(1), u.h(1)}), "a", {I(3), I(4)}),
      SetSlice("[h0,h1,h63,h99].a=[5,6,None,7]", mh, "a", {I(5), I(6), N(), I(7)}),
      SetSlice("[h0,h1,h63,h99].a=['c','d','e',8]", mh, "a", {T("c"), T("d"), T("e"), I(8)}),
      SetSlice("[h0,h1,h63,h99].a=[None]*4", mh, "a", {N(), N(), N(), N()}),
      SetFull("full H.a=[unset,removed,1,unset*97]", u.H, "a", Hundred({std::nullopt, N(), I(1)}, false)),
      SetFull("full H.a=[1,2,3,...]", u.H, "a", Hundred({I(1), I(2), I(3)}, true)),
      SetSlice("[h99,s0,a1].a=[9,10,None]", Os({u.h(99), u.s0, u.a(1)}), "a", {I(9), I(10), N()}),
      SetItem("h1.b=2", u.h(1), "b", I(2)),
      CaptureAttr("read H.a", {u.h(0), u.h(1), u.h(63), u.h(99)}, "a")};
  std::vector<Op> many{
      SetSlice("many.a=[1..8]", Os(u.many), "a", {I(1), I(2), I(3), I(4), I(5), I(6), I(7), I(8)}),
      SetSlice("many.a=mixed", Os(u.many), "a", {T("a"), N(), I(3), N(), F(5), T("f"), N(), I(8)}),
      SetItem("many0.a=None", u.many[0], "a", N()), SetItem("many5.a='x'", u.many[5], "a", T("x")), SetItem("many7.a=9", u.many[7], "a", I(9)),
      SetSlice("[s0]+many.a", [&] { auto v = Os(u.many); v.insert(v.begin(), O(u.s0)); return v; }(), "a", {I(0), N(), I(2), I(3), I(4), I(5), N(), I(7), T("l")})};
  std::vector<Op> unit{
      Unit_("unit [s0,s1,s0].u", Os({u.s0, u.s1, u.s0}), "u"), Unit_("unit [a0,a2,a0].u", Os({u.a(0), u.a(2), u.a(0)}), "u"),
      Unit_("unit [h0,h99].u", Os({u.h(0), u.h(99)}), "u"), Unit_("unit [h0,h1,h63,h99].u", mh, "u"),
      Unit_("unit [a1,s0,h1,None].u", {O(u.a(1)), O(u.s0), O(u.h(1)), N()}, "u"), Unit_("unit many.u", Os(u.many), "u")};
  std::vector<std::string> creates;
  for (int i = 0; i < 16; ++i) creates.push_back("create " + std::to_string(i));
  auto sl = Slices();
  std::vector<Items_> unit_sl{full, mh, Os({u.s0, u.s1}), Os(u.many)};
  return {Make("small", 3, small, {sl[3], sl[4], sl[6], sl[7], sl[8]}, {"a", "b"}), Make("big", 4, big, {sl[0], sl[1], sl[3], sl[6]}, {"a", "b"}),
          Make("huge", 4, huge, {sl[2], sl[3]}, {"a"}), Make("many", 4, many, {sl[5], sl[3]}, {"a"}), Make("unit", 4, unit, unit_sl, {"u"}),
          {"errors", {}, 0, Errors}, {"create", creates, 2, Create}};
}
}  // namespace drv
