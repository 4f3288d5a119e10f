// B05: merging DataBags: what is set in either is set in the result, conflicts
// go by the policy; updates applied later give the same as merging now.
#include "bag.h"
namespace drv {
namespace {
using kd::internal::MergeOptions;
using Policy = MergeOptions::ConflictHandlingOption;
struct Uni {
  AllocationId A = kd::internal::Allocate(4), H = kd::internal::Allocate(100), LA = kd::internal::AllocateLists(3), DA = kd::internal::AllocateDicts(3), SA = kd::internal::AllocateExplicitSchemas(3);
  ObjectId s0 = kd::internal::AllocateSingleObject(), s1 = kd::internal::AllocateSingleObject();
  ObjectId l = kd::internal::AllocateSingleList(), d = kd::internal::AllocateSingleDict(), sc = kd::internal::AllocateExplicitSchema();
  ObjectId im = kd::internal::CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(s0, arolla::FingerprintHasher("").Combine(1).Finish());
  ObjectId a(int i) const { return A.ObjectByOffset(i); }
  ObjectId h(int i) const { return H.ObjectByOffset(i); }
  ObjectId la(int i) const { return LA.ObjectByOffset(i); }
  ObjectId da(int i) const { return DA.ObjectByOffset(i); }
  ObjectId sa(int i) const { return SA.ObjectByOffset(i); }
};
const Uni& U_() { static const Uni* u = new Uni; return *u; }
Items_ Os(std::vector<ObjectId> v) { Items_ r; for (auto o : v) r.push_back(O(o)); return r; }
bool Nan(const DataItem& x) { return x.is_nan(); }
bool Differ(const DataItem& a, const DataItem& b) { return !(a == b) && !(Nan(a) && Nan(b)); }

// Merges y into x; the answer: there is a conflict that `p` does not allow.
bool Merge(Model& x, const Model& y, Policy data, Policy schema) {
  bool bad = false;
  for (auto& [k, v] : y.attrs) {
    auto [it, fresh] = x.attrs.insert({k, v});
    if (fresh) continue;
    if (data == Policy::kRaiseOnConflict && Differ(it->second, v)) bad = true;
    if (data == Policy::kOverwrite) it->second = v;
  }
  for (auto& [k, v] : y.lists) {
    auto [it, fresh] = x.lists.insert({k, v});
    if (fresh) continue;
    if (data == Policy::kRaiseOnConflict) {
      if (it->second.size() != v.size()) bad = true;
      else for (size_t i = 0; i < v.size(); ++i) bad |= Differ(it->second[i], v[i]);
    }
    if (data == Policy::kOverwrite) it->second = v;
  }
  for (auto& [o, d] : y.dicts) {
    Policy p = o.IsExplicitSchema() ? schema : data;
    for (auto& [k, v] : d) {
      auto [it, fresh] = x.dicts[o].insert({k, v});
      if (fresh) continue;
      if (p == Policy::kRaiseOnConflict && Differ(it->second, v)) bad = true;
      if (p == Policy::kOverwrite) it->second = v;
    }
  }
  return bad;
}

using ReadAll = std::function<void(const DataBagImpl&, const Model&, const std::string&)>;

World ForkOf(const World& b) {
  World w;
  w.bag = b.bag->PartiallyPersistentFork();
  w.m = b.m;
  return w;
}

const char* Shapes[] = {"two forks of a bag", "two bags with the same content", "a bag and a fork of it", "a fork and the bag it is of", "a fork of a fork and a fork", "a bag and a fork of another", "a fork of a bag and another bag", "forks of two bags with the same content"};

// Executes the three phases (base, target, source) in one shape of relationship
// and merges.
void Scenario(int shape, const std::vector<const Op*> ph[3], const ReadAll& read, const Op& after, const std::function<bool(const World&)>& usable) {
  auto play = [&](World& w, int p) { for (auto* op : ph[p]) op->second(w); };
  auto build = [&](World& base, World& x, World& y) {
    if (shape == 7) { World b2; play(base, 0); play(b2, 0); x = ForkOf(base); y = ForkOf(b2); play(x, 1); play(y, 2); return; }
    if (shape == 1) { play(x, 0); play(y, 0); play(x, 1); play(y, 2); return; }
    play(base, 0);
    switch (shape) {
      case 0: x = ForkOf(base); y = ForkOf(base); play(x, 1); play(y, 2); break;
      case 2: x = ForkOf(base); play(x, 1); base = x; x = ForkOf(base); y = ForkOf(base); play(y, 2); break;  // x is unchanged
      case 3: y = ForkOf(base); play(y, 2); base = y; y = ForkOf(base); x = ForkOf(base); play(x, 1); break;  // y is unchanged
      case 5: play(x, 1); y = ForkOf(base); play(y, 2); break;
      case 6: x = ForkOf(base); play(x, 1); play(y, 2); break;
      case 4: { World mid = ForkOf(base); play(mid, 1); y = ForkOf(base); play(y, 2); x = ForkOf(mid); break; }
    }
  };
  for (Policy p : {Policy::kOverwrite, Policy::kKeepOriginal, Policy::kRaiseOnConflict}) for (bool frozen : {false, true}) {
    if (frozen && p != Policy::kOverwrite) continue;
    World base, x, y;
    build(base, x, y);
    if (!usable(x) || !usable(y)) return;
    const std::string who = std::string(Shapes[shape]) + (frozen ? ", the source frozen" : "") + ", policy " + (p == Policy::kOverwrite ? "overwrite" : p == Policy::kKeepOriginal ? "keep" : "raise") + ": ";
    Model want = x.m;
    bool conflict = Merge(want, y.m, p, p);
    if (frozen) y.bag->Freeze();
    if (p == Policy::kOverwrite) {
      auto update = Ok(x.bag->CreateOverwritingMergeUpdate(*y.bag), "CreateOverwritingMergeUpdate");
      read(*x.bag, x.m, who + "the target of an update, before it: ");
      World z = ForkOf(x);
      Ok(z.bag->MergeInplace(*update, MergeOptions{Policy::kOverwrite, Policy::kOverwrite}), "MergeInplace of an update");
      read(*z.bag, want, who + "the update merged: ");
      read(*y.bag, y.m, who + "the source, after an update: ");
      // The update stays as it is when the source changes.
      if (!frozen) {
        World y2 = y; after.second(y2); y.m = y2.m;
        World z2 = ForkOf(x);
        Ok(z2.bag->MergeInplace(*update, MergeOptions{Policy::kOverwrite, Policy::kOverwrite}), "MergeInplace of an update");
        read(*z2.bag, want, who + "the update merged after the source changed: ");
        want = x.m;
        Merge(want, y.m, p, p);
      }
    }
    auto st = x.bag->MergeInplace(*y.bag, MergeOptions{p, p});
    read(*y.bag, y.m, who + "the source, after merging: ");
    if (shape != 1) read(*base.bag, base.m, who + "the parent, after merging: ");
    if (conflict) {
      if (st.ok()) Fail(who + "MergeInplace succeeds in spite of a conflict");
      continue;
    }
    if (!st.ok()) Fail(who + "MergeInplace fails without a conflict: " + st.ToString());
    x.m = want;
    read(*x.bag, x.m, who + "merged: ");
    // Both go on separately.
    after.second(x);
    read(*y.bag, y.m, who + "the source, after an update of the target: ");
    if (!frozen) {
      World y2 = y; after.second(y2); y.m = y2.m;
      read(*y.bag, y.m, who + "the source, updated: ");
    }
    read(*x.bag, x.m, who + "merged and updated: ");
    if (shape != 1) read(*base.bag, base.m, who + "the parent, at the end: ");
  }
}

Shard Make(std::string name, int depth, std::vector<Op> ops, Op after, ReadAll read, std::function<bool(const World&)> usable = [](const World&) { return true; }) {
  auto sh = std::make_shared<std::vector<Op>>(std::move(ops));
  const int m = sh->size();
  std::vector<std::string> names;
  for (const char* p : {"base: ", "target: ", "source: "}) for (auto& o : *sh) names.push_back(p + o.first);
  return {name, names, depth, [=](const std::vector<int>& h, std::string* st) {
    for (size_t i = 1; i < h.size(); ++i) if (h[i] / m < h[i - 1] / m) { ++g.skipped; return; }  // the same as one in order
    std::vector<const Op*> ph[3];
    for (int o : h) ph[o / m].push_back(&(*sh)[o % m]);
    for (int s = 0; s < 8; ++s) Scenario(s, ph, read, after, usable);
    World w;
    for (int o : h) (*sh)[o % m].second(w);
    *st = w.m.Digest();
  }};
}

// The two policies are told apart: one for explicit schemas, one for the rest.
void Policies(const std::vector<int>&, std::string* st) {
  auto& u = U_();
  DataItem i32(kd::schema::kInt32), txt(kd::schema::kString);
  for (Policy dp : {Policy::kOverwrite, Policy::kKeepOriginal, Policy::kRaiseOnConflict}) for (Policy sp : {Policy::kOverwrite, Policy::kKeepOriginal, Policy::kRaiseOnConflict})
    for (int with = 0; with < 64; ++with) {
      World x, y;
      auto both = [&](auto mk) { mk(true).second(x); mk(false).second(y); };
      if (with & 1) both([&](bool f) { return SetItem("", u.s0, "a", f ? I(1) : I(2)); });
      if (with & 2) both([&](bool f) { return SetItem("", u.a(1), "a", f ? I(1) : T("2")); });
      if (with & 4) both([&](bool f) { return LAppend("", u.l, f ? I(1) : I(2)); });
      if (with & 8) both([&](bool f) { return DSetOp("", u.d, I(1), f ? I(1) : I(2)); });
      if (with & 16) both([&](bool f) { return SSet("", u.sc, "a", f ? i32 : txt); });
      if (with & 32) both([&](bool f) { return SSet("", u.im, "a", f ? i32 : txt); });
      Model want = x.m;
      bool bad = Merge(want, y.m, dp, sp);
      auto s = x.bag->MergeInplace(*y.bag, MergeOptions{dp, sp});
      if (s.ok() == bad) Fail(bad ? "MergeInplace succeeds in spite of a conflict" : "MergeInplace fails: " + s.ToString());
      auto r = kd::internal::ReverseMergeOptions(MergeOptions{dp, sp});
      auto rev = [](Policy p) { return p == Policy::kOverwrite ? Policy::kKeepOriginal : p == Policy::kKeepOriginal ? Policy::kOverwrite : p; };
      if (r.data_conflict_policy != rev(dp) || r.schema_conflict_policy != rev(sp)) Fail("ReverseMergeOptions");
      if (bad) continue;
      ReadAttrs(*x.bag, {&want}, {}, {Os({u.s0, u.a(1)})}, {"a"}, "merged: ");
      ReadLists(*x.bag, {&want}, {}, {Os({u.l})}, "merged: ");
      ReadDicts(*x.bag, {&want}, {}, {Os({u.d})}, {I(1)}, "merged: ");
      ReadSchemas(*x.bag, want, {u.sc, u.im}, {"a"}, "merged: ");
    }
  *st = "1";
}
}  // namespace

std::vector<Shard> Families() {
  auto& u = U_();
  const auto end = std::nullopt;
  Items_ A = Os({u.a(0), u.a(1), u.a(2), u.a(3)}), hs = Os({u.h(0), u.h(7), u.h(8), u.h(99)}), ss = Os({u.s0, u.s1});
  std::vector<OptItem> part(100), whole(100, OptItem(I(5)));
  part[0] = N(); part[7] = T("full"); whole[0] = I(1); whole[8] = N();
  const DataItem nan = F(std::numeric_limits<float>::quiet_NaN());
  std::vector<Op> small{SetItem("s0.a=1", u.s0, "a", I(1)), SetItem("s0.a=None", u.s0, "a", N()), SetItem("s1.a='x'", u.s1, "a", T("x")), SetSlice("[s0,s1].a=[2,None]", ss, "a", {I(2), N()}),
                        SetItem("s0.b=1", u.s0, "b", I(1)), SetItem("s0.a=nan", u.s0, "a", nan)};
  std::vector<Op> dense{SetItem("a0.a=1", u.a(0), "a", I(1)), SetItem("a1.a=None", u.a(1), "a", N()), SetItem("a0.a='x'", u.a(0), "a", T("x")), SetSlice("A.a=[1,3,None,4]", A, "a", {I(1), I(3), N(), I(4)}), SetSlice("A.a=['p',5,None,a0]", A, "a", {T("p"), I(5), N(), O(u.a(0))}),
                        SetFull("full A.a=[6,3,8,9]", u.A, "a", {I(6), I(3), I(8), I(9)}), SetFull("full A.a=[unset,removed,'q',unset]", u.A, "a", {end, N(), T("q"), end}), SetFull("full A.a=[removed]*4", u.A, "a", {N(), N(), N(), N()}), SetItem("a2.b=1.0", u.a(2), "b", F(1))};
  std::vector<Op> sparse{SetItem("h0.a=1", u.h(0), "a", I(1)), SetItem("h7.a=None", u.h(7), "a", N()), SetItem("h7.a='x'", u.h(7), "a", T("x")), SetSlice("[h0,h7,h8,h99].a=[1,None,'r',11]", hs, "a", {I(1), N(), T("r"), I(11)}),
                         SetFull("full H.a=[removed,...,'full',...]", u.H, "a", part), SetFull("full H.a=[1,5,...,removed,5...]", u.H, "a", whole)};
  auto rs = [=](const DataBagImpl& b, const Model& m, const std::string& who) { ReadAttrs(b, {&m}, {}, {ss}, {"a", "b"}, who); };
  auto rd = [=](const DataBagImpl& b, const Model& m, const std::string& who) { ReadAttrs(b, {&m}, {}, {A}, {"a", "b"}, who); };
  auto rh = [=](const DataBagImpl& b, const Model& m, const std::string& who) { ReadAttrs(b, {&m}, {}, {hs}, {"a"}, who); };
  Items_ ls = Os({u.la(0), u.la(1), u.la(2)}), al = Os({u.l, u.la(0), u.la(1), u.la(2)});
  std::vector<Op> lists{LAppend("l.append(1)", u.l, I(1)), LExtend("l.extend([2,'x'])", u.l, {I(2), T("x")}), LReplace("l[0:]=[]", u.l, 0, end, {}), LSet("l[0]=1", u.l, 0, I(1)), LPop("l.pop(0)", u.l, 0), LAppendN("append L [1,'a',None]", ls, {I(1), T("a"), N()}), LReplace("L0[0:]=[]", u.la(0), 0, end, {}), LReplace("L2[0:]=[7]", u.la(2), 0, end, {I(7)})};
  auto rl = [=](const DataBagImpl& b, const Model& m, const std::string& who) { ReadLists(b, {&m}, {}, {al}, who); };
  // Lists that only saw operations without effect may be set or not.
  auto definite = [](const World& w) { return w.m.vague.empty(); };
  Items_ ds = Os({u.da(0), u.da(1), u.da(2)}), ad = Os({u.d, u.da(0), u.da(1), u.da(2)});
  std::vector<Op> dicts{DSetOp("d[1]=1", u.d, I(1), I(1)), DSetOp("d[1]='x'", u.d, I(1), T("x")), DSetOp("d['k']=None", u.d, T("k"), N()), DSetOp("d['k']=2", u.d, T("k"), I(2)), DClearOp("clear d", u.d), DSetN("D[1,'k',1]=[1,'a',None]", ds, {I(1), T("k"), I(1)}, {I(1), T("a"), N()}), DClearOp("clear D0", u.da(0)), DSetOp("D0[l1]=2", u.da(0), L(1), I(2))};
  Items_ keys{I(1), T("k"), I(2)};
  auto rdc = [=](const DataBagImpl& b, const Model& m, const std::string& who) { ReadDicts(b, {&m}, {}, {ad}, keys, who); };
  DataItem i32(kd::schema::kInt32), txt(kd::schema::kString);
  std::vector<ObjectId> sos{u.sc, u.im, u.sa(0), u.sa(1), u.sa(2)};
  std::vector<Op> schemas{SSet("sc.a=INT32", u.sc, "a", i32), SSet("sc.a=STRING", u.sc, "a", txt), SSet("sc.b=sc", u.sc, "b", O(u.sc)), SDel("del sc.a", u.sc, "a"), SSet("im.a=INT32", u.im, "a", i32), SDel("del im.a", u.im, "a"),
                          SSetN("SA.a=[INT32,STRING,INT32]", {u.sa(0), u.sa(1), u.sa(2)}, "a", {i32, txt, i32}), SSet("SA1.a=INT32", u.sa(1), "a", i32), SDel("del SA0.a", u.sa(0), "a")};
  auto rsc = [=](const DataBagImpl& b, const Model& m, const std::string& who) { ReadSchemas(b, m, sos, {"a", "b"}, who); };
  return {Make("small allocations", 3, small, SetSlice("", ss, "a", {I(77), I(78)}), rs), Make("dense attributes", 3, dense, SetSlice("", A, "a", {I(77), N(), T("y"), I(78)}), rd),
          Make("sparse attributes", 3, sparse, SetItem("", u.h(7), "a", I(77)), rh), Make("lists", 3, lists, LAppendN("", al, {I(77), I(78), T("z"), N()}), rl, definite),
          Make("dicts", 3, dicts, DSetN("", ad, {I(1), I(1), T("k"), I(2)}, {I(77), N(), T("z"), I(78)}), rdc), Make("schemas", 3, schemas, SSetN("", {u.sc, u.sa(0), u.sa(2)}, "a", {O(u.sc), O(u.sc), O(u.sc)}), rsc),
          {"policies", {}, 0, Policies}};
}
}  // namespace drv
