// Stand-in: the part of arolla's type and value layer that the parallel
// runtime uses (types with a layout, type-erased references and values).
#ifndef VERIF_AROLLA_QTYPE_H_
#define VERIF_AROLLA_QTYPE_H_
#include <cstddef>
#include <cstring>
#include <memory>
#include <string>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>
#include "absl/base/nullability.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/memory.h"
#include "arolla/util/repr.h"
#include "arolla/util/unit.h"
namespace arolla {
class QType;
using QTypePtr = const QType*;
class FrameLayout {
 public:
  struct Field { size_t offset; void (*init)(void*); void (*destroy)(void*); };
  size_t size = 0, alignment = 1;
  std::vector<Field> fields;  // leaves
  size_t AllocSize() const { return size; }
  size_t AllocAlignment() const { return alignment; }
  void InitializeAlignedAlloc(void* p) const { for (auto& f : fields) f.init(static_cast<char*>(p) + f.offset); }
  void DestroyAlloc(void* p) const { for (auto& f : fields) f.destroy(static_cast<char*>(p) + f.offset); }
  void InitializeAlignedAllocN(void* p, size_t n) const { for (size_t i = 0; i < n; ++i) InitializeAlignedAlloc(static_cast<char*>(p) + i * size); }
  void DestroyAllocN(void* p, size_t n) const { for (size_t i = 0; i < n; ++i) DestroyAlloc(static_cast<char*>(p) + i * size); }
  template <typename T> static FrameLayout Of() {
    FrameLayout l;
    if constexpr (!std::is_void_v<T>) {
      l.size = std::is_empty_v<T> ? 0 : sizeof(T);
      l.alignment = alignof(T);
      if (l.size) l.fields.push_back({0, [](void* p) { new (p) T(); }, [](void* p) { static_cast<T*>(p)->~T(); }});
    }
    return l;
  }
};
struct TypedSlotInfo { size_t offset; QTypePtr type; };
class QType {
 public:
  virtual ~QType() = default;
  QType(const QType&) = delete;
  absl::string_view name() const { return name_; }
  const std::type_info& type_info() const { return *type_info_; }
  const FrameLayout& type_layout() const { return layout_; }
  const std::vector<TypedSlotInfo>& type_fields() const { return fields_; }
  QTypePtr value_qtype() const { return value_qtype_; }
  QTypePtr decay() const { return decay_ ? decay_ : this; }
  absl::string_view qtype_specialization_key() const { return key_; }
  virtual void UnsafeCopy(const void* src, void* dst) const = 0;
  virtual void UnsafeCombineToFingerprintHasher(const void* p, FingerprintHasher* h) const = 0;
  virtual ReprToken UnsafeReprToken(const void* p) const = 0;
 protected:
  QType(std::string name, const std::type_info& ti, FrameLayout layout, QTypePtr value_qtype = nullptr, std::string key = "")
      : name_(std::move(name)), type_info_(&ti), layout_(std::move(layout)), value_qtype_(value_qtype), key_(std::move(key)) {}
  std::string name_;
  const std::type_info* type_info_;
  FrameLayout layout_;
  QTypePtr value_qtype_ = nullptr;
  QTypePtr decay_ = nullptr;
  std::string key_;
  std::vector<TypedSlotInfo> fields_;
};
template <typename T> struct QTypeTraits;
template <typename T> QTypePtr GetQType() { return QTypeTraits<std::remove_cv_t<std::remove_reference_t<T>>>::type(); }
QTypePtr GetQTypeQType();
QTypePtr GetNothingQType();
template <> struct QTypeTraits<QTypePtr> { static QTypePtr type() { return GetQTypeQType(); } };
inline QTypePtr DecayDerivedQType(QTypePtr q) { return q ? q->decay() : q; }
}  // namespace arolla
#endif
