#ifndef VERIF_AROLLA_TYPED_REF_H_
#define VERIF_AROLLA_TYPED_REF_H_
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/qtype.h"
namespace arolla {
class TypedRef {
 public:
  static TypedRef UnsafeFromRawPointer(QTypePtr t, const void* p) { return TypedRef(t, p); }
  template <typename T> static TypedRef FromValue(const T& v) { return TypedRef(GetQType<T>(), &v); }
  QTypePtr GetType() const { return type_; }
  const void* GetRawPointer() const { return ptr_; }
  template <typename T> const T& UnsafeAs() const { return *static_cast<const T*>(ptr_); }
  template <typename T> absl::StatusOr<std::reference_wrapper<const T>> As() const {
    if (type_->type_info() != typeid(T)) return absl::InvalidArgumentError(absl::StrCat("type mismatch: ", type_->name()));
    return std::cref(UnsafeAs<T>());
  }
  size_t GetFieldCount() const { return type_->type_fields().size(); }
  TypedRef GetField(size_t i) const {
    auto& f = type_->type_fields()[i];
    return TypedRef(f.type, static_cast<const char*>(ptr_) + f.offset);
  }
  ReprToken GenReprToken() const { return type_->UnsafeReprToken(ptr_); }
  std::string Repr() const { return GenReprToken().str; }
  Fingerprint GetFingerprint() const {
    FingerprintHasher h("TypedValue");
    h.Combine(type_);
    type_->UnsafeCombineToFingerprintHasher(ptr_, &h);
    return std::move(h).Finish();
  }
 private:
  TypedRef(QTypePtr t, const void* p) : type_(t), ptr_(p) {}
  QTypePtr type_;
  const void* ptr_;
};
}
#endif
