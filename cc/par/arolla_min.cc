// The out-of-line part of the stand-in for arolla.
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "arolla/derived_qtype/labeled_qtype.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/named_field_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/qtype/unspecified_qtype.h"
#include "absl/synchronization/mutex.h"
namespace arolla {
AROLLA_DEFINE_SIMPLE_QTYPE(INT32, int32_t)
AROLLA_DEFINE_SIMPLE_QTYPE(INT64, int64_t)
AROLLA_DEFINE_SIMPLE_QTYPE(UINT64, uint64_t)
AROLLA_DEFINE_SIMPLE_QTYPE(FLOAT32, float)
AROLLA_DEFINE_SIMPLE_QTYPE(FLOAT64, double)
AROLLA_DEFINE_SIMPLE_QTYPE(BOOLEAN, bool)
AROLLA_DEFINE_SIMPLE_QTYPE(BYTES, std::string)
AROLLA_DEFINE_SIMPLE_QTYPE(TEXT, Text)
AROLLA_DEFINE_SIMPLE_QTYPE(UNIT, Unit)
QTypePtr GetQTypeQType() {
  static const SimpleQType* q = new SimpleQType(meta::type<QTypePtr>(), "QTYPE");
  return q;
}
namespace {
class NothingQType final : public QType {
 public:
  NothingQType() : QType("NOTHING", typeid(void), FrameLayout::Of<void>()) {}
  void UnsafeCopy(const void*, void*) const final {}
  void UnsafeCombineToFingerprintHasher(const void*, FingerprintHasher*) const final {}
  ReprToken UnsafeReprToken(const void*) const final { return {"nothing"}; }
};
struct UnspecifiedValue { char x = 0; };
class TupleQType final : public QType {
 public:
  TupleQType(std::vector<std::string> names, bool named, const std::vector<QTypePtr>& fs)
      : QType(Name(names, named, fs), typeid(TupleQType), FrameLayout()), names_(std::move(names)), named_(named) {
    for (auto* f : fs) {
      auto& l = f->type_layout();
      size_t off = (layout_.size + l.AllocAlignment() - 1) / l.AllocAlignment() * l.AllocAlignment();
      if (l.AllocAlignment() > layout_.alignment) layout_.alignment = l.AllocAlignment();
      for (auto g : l.fields) { g.offset += off; layout_.fields.push_back(g); }
      fields_.push_back({off, f});
      layout_.size = off + l.AllocSize();
    }
    layout_.size = (layout_.size + layout_.alignment - 1) / layout_.alignment * layout_.alignment;
  }
  static std::string Name(const std::vector<std::string>& names, bool named, const std::vector<QTypePtr>& fs) {
    std::string r = named ? "namedtuple<" : "tuple<";
    for (size_t i = 0; i < fs.size(); ++i) {
      if (i) r += ",";
      if (named) r += names[i] + "=";
      r += std::string(fs[i]->name());
    }
    return r + ">";
  }
  void UnsafeCopy(const void* s, void* d) const final {
    for (auto& f : fields_) f.type->UnsafeCopy(static_cast<const char*>(s) + f.offset, static_cast<char*>(d) + f.offset);
  }
  void UnsafeCombineToFingerprintHasher(const void* p, FingerprintHasher* h) const final {
    for (auto& f : fields_) f.type->UnsafeCombineToFingerprintHasher(static_cast<const char*>(p) + f.offset, h);
  }
  ReprToken UnsafeReprToken(const void*) const final { return {name_}; }
  const std::vector<std::string> names_;
  const bool named_;
};
class LabeledQType final : public QType {
 public:
  LabeledQType(QTypePtr base, std::string label)
      : QType("LABEL[" + std::string(base->name()) + ", '" + label + "']", base->type_info(), base->type_layout(), base->value_qtype(), ""),
        label_(std::move(label)) {
    decay_ = base->decay();
    fields_ = base->type_fields();
  }
  void UnsafeCopy(const void* s, void* d) const final { decay_->UnsafeCopy(s, d); }
  void UnsafeCombineToFingerprintHasher(const void* p, FingerprintHasher* h) const final { decay_->UnsafeCombineToFingerprintHasher(p, h); }
  ReprToken UnsafeReprToken(const void* p) const final { return decay_->UnsafeReprToken(p); }
  const std::string label_;
};
// Interned types. The lookup is not an event of the model: see verif_quiet.
extern "C" void verif_quiet(int delta);
struct Quiet { Quiet() { verif_quiet(1); } ~Quiet() { verif_quiet(-1); } };
template <typename K, typename V> V* Intern(K key, V* (*make)(const K&)) {
  static std::map<K, std::unique_ptr<V>>* m = new std::map<K, std::unique_ptr<V>>();
  static verif_RawMutex mu;
  mu.Lock();
  auto& r = (*m)[key];
  if (!r) r.reset(make(key));
  V* v = r.get();
  mu.Unlock();
  return v;
}
using TupleKey = std::tuple<std::vector<std::string>, bool, std::vector<QTypePtr>>;
TupleQType* GetTuple(TupleKey k) {
  return Intern<TupleKey, TupleQType>(std::move(k), [](const TupleKey& k) { return new TupleQType(std::get<0>(k), std::get<1>(k), std::get<2>(k)); });
}
const TupleQType* AsTuple(QTypePtr q) { return q && typeid(*q) == typeid(TupleQType) ? static_cast<const TupleQType*>(q) : nullptr; }
TypedValue Fill(QTypePtr q, absl::Span<const TypedRef> fields) {
  // A value of a compound type is a frame holding copies of its fields.
  AlignedPtr p = AlignedAlloc(std::align_val_t{q->type_layout().AllocAlignment()}, q->type_layout().AllocSize());
  q->type_layout().InitializeAlignedAlloc(p.get());
  for (size_t i = 0; i < fields.size(); ++i) {
    fields[i].GetType()->UnsafeCopy(fields[i].GetRawPointer(), static_cast<char*>(p.get()) + q->type_fields()[i].offset);
  }
  TypedValue r(TypedRef::UnsafeFromRawPointer(q, p.get()));
  q->type_layout().DestroyAlloc(p.get());
  return r;
}
}  // namespace
QTypePtr GetNothingQType() { static const NothingQType* q = new NothingQType(); return q; }
QTypePtr GetUnspecifiedQType() {
  static const SimpleQType* q = new SimpleQType(meta::type<UnspecifiedValue>(), "UNSPECIFIED");
  return q;
}
const TypedValue& GetUnspecifiedQValue() {
  static const TypedValue* v = new TypedValue(*TypedValue::FromValueWithQType(UnspecifiedValue{}, GetUnspecifiedQType()));
  return *v;
}
QTypePtr MakeTupleQType(absl::Span<const QTypePtr> fs) {
  Quiet quiet;
  return GetTuple(TupleKey({}, false, std::vector<QTypePtr>(fs.begin(), fs.end())));
}
QTypePtr MakeNamedTupleQType(absl::Span<const std::string> names, absl::Span<const QTypePtr> fs) {
  Quiet quiet;
  return GetTuple(TupleKey(std::vector<std::string>(names.begin(), names.end()), true, std::vector<QTypePtr>(fs.begin(), fs.end())));
}
bool IsTupleQType(QTypePtr q) { auto* t = AsTuple(q); return t && !t->named_; }
bool IsNamedTupleQType(QTypePtr q) { auto* t = AsTuple(q); return t && t->named_; }
absl::Span<const std::string> GetFieldNames(QTypePtr q) {
  auto* t = AsTuple(q);
  return t ? absl::Span<const std::string>(t->names_) : absl::Span<const std::string>();
}
std::optional<int64_t> GetFieldIndexByName(QTypePtr q, absl::string_view name) {
  auto names = GetFieldNames(q);
  for (size_t i = 0; i < names.size(); ++i) if (names[i] == name) return i;
  return std::nullopt;
}
TypedValue MakeTuple(absl::Span<const TypedRef> fields) {
  std::vector<QTypePtr> ts;
  for (auto& f : fields) ts.push_back(f.GetType());
  return Fill(MakeTupleQType(ts), fields);
}
absl::StatusOr<TypedValue> MakeNamedTuple(absl::Span<const std::string> names, absl::Span<const TypedRef> fields) {
  if (names.size() != fields.size()) return absl::InvalidArgumentError("names and fields differ in number");
  std::vector<QTypePtr> ts;
  for (auto& f : fields) ts.push_back(f.GetType());
  return Fill(MakeNamedTupleQType(names, ts), fields);
}
QTypePtr GetLabeledQType(QTypePtr base, absl::string_view label) {
  base = DecayDerivedQType(base);
  if (label.empty()) return base;
  using Key = std::pair<QTypePtr, std::string>;
  Quiet quiet;
  return Intern<Key, LabeledQType>(Key(base, std::string(label)), [](const Key& k) { return new LabeledQType(k.first, k.second); });
}
bool IsLabeledQType(QTypePtr q) { return q && typeid(*q) == typeid(LabeledQType); }
absl::string_view GetQTypeLabel(QTypePtr q) {
  return IsLabeledQType(q) ? absl::string_view(static_cast<const LabeledQType*>(q)->label_) : absl::string_view();
}
}  // namespace arolla
