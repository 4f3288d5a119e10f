#ifndef VERIF_AROLLA_SIMPLE_QTYPE_H_
#define VERIF_AROLLA_SIMPLE_QTYPE_H_
#include <string>
#include <utility>
#include "arolla/qtype/qtype.h"
#include "arolla/util/meta.h"
namespace arolla {
class SimpleQType : public QType {
 public:
  template <typename T>
  SimpleQType(meta::type_<T>, std::string name, QTypePtr value_qtype = nullptr, std::string key = "")
      : QType(std::move(name), typeid(T), FrameLayout::Of<T>(), value_qtype, std::move(key)) {
    copy_ = [](const void* s, void* d) { if constexpr (!std::is_empty_v<T>) *static_cast<T*>(d) = *static_cast<const T*>(s); };
    hash_ = [](const void* p, FingerprintHasher* h) { h->Combine(*static_cast<const T*>(p)); };
    repr_ = [](const void* p) { return GenReprToken(*static_cast<const T*>(p)); };
  }
  void UnsafeCopy(const void* s, void* d) const final { copy_(s, d); }
  void UnsafeCombineToFingerprintHasher(const void* p, FingerprintHasher* h) const final { hash_(p, h); }
  ReprToken UnsafeReprToken(const void* p) const final { return repr_(p); }
 private:
  void (*copy_)(const void*, void*);
  void (*hash_)(const void*, FingerprintHasher*);
  ReprToken (*repr_)(const void*);
};
}
#define AROLLA_DECLARE_SIMPLE_QTYPE(NAME, ...) \
  template <> struct QTypeTraits<__VA_ARGS__> { static QTypePtr type(); }
#define AROLLA_DEFINE_SIMPLE_QTYPE(NAME, ...) \
  QTypePtr QTypeTraits<__VA_ARGS__>::type() { \
    static const ::arolla::SimpleQType* q = new ::arolla::SimpleQType(::arolla::meta::type<__VA_ARGS__>(), #NAME); \
    return q; \
  }
#endif
