#ifndef VERIF_AROLLA_TYPED_VALUE_H_
#define VERIF_AROLLA_TYPED_VALUE_H_
#include <memory>
#include "arolla/qtype/typed_ref.h"
namespace arolla {
class TypedValue {
 public:
  explicit TypedValue(TypedRef r) : TypedValue(r.GetType()) { r.GetType()->UnsafeCopy(r.GetRawPointer(), rep_->p.get()); }
  template <typename T> static TypedValue FromValue(T&& v) {
    using V = std::remove_cv_t<std::remove_reference_t<T>>;
    TypedValue r(GetQType<V>());
    if constexpr (!std::is_empty_v<V>) *static_cast<V*>(r.rep_->p.get()) = std::forward<T>(v);
    return r;
  }
  template <typename T> static absl::StatusOr<TypedValue> FromValueWithQType(T&& v, QTypePtr q) {
    using V = std::remove_cv_t<std::remove_reference_t<T>>;
    if (q->type_info() != typeid(V)) return absl::InvalidArgumentError("qtype mismatch");
    TypedValue r(q);
    if constexpr (!std::is_empty_v<V>) *static_cast<V*>(r.rep_->p.get()) = std::forward<T>(v);
    return r;
  }
  QTypePtr GetType() const { return rep_->type; }
  const void* GetRawPointer() const { return rep_->p.get(); }
  TypedRef AsRef() const { return TypedRef::UnsafeFromRawPointer(rep_->type, rep_->p.get()); }
  operator TypedRef() const { return AsRef(); }
  template <typename T> const T& UnsafeAs() const { return AsRef().UnsafeAs<T>(); }
  template <typename T> absl::StatusOr<std::reference_wrapper<const T>> As() const { return AsRef().As<T>(); }
  size_t GetFieldCount() const { return AsRef().GetFieldCount(); }
  TypedRef GetField(size_t i) const { return AsRef().GetField(i); }
  ReprToken GenReprToken() const { return AsRef().GenReprToken(); }
  std::string Repr() const { return AsRef().Repr(); }
  Fingerprint GetFingerprint() const { return AsRef().GetFingerprint(); }
 private:
  struct Rep {
    QTypePtr type;
    AlignedPtr p;
    explicit Rep(QTypePtr t)
        : type(t), p(AlignedAlloc(std::align_val_t{t->type_layout().AllocAlignment()}, t->type_layout().AllocSize())) {
      type->type_layout().InitializeAlignedAlloc(p.get());
    }
    ~Rep() { type->type_layout().DestroyAlloc(p.get()); }
  };
  explicit TypedValue(QTypePtr t) : rep_(std::make_shared<Rep>(t)) {}
  std::shared_ptr<Rep> rep_;
};
}
#endif
