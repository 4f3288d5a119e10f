#ifndef VERIF_AR_FINGERPRINT_H_
#define VERIF_AR_FINGERPRINT_H_
#include <cstdint>
#include <cstring>
#include <functional>
#include <ostream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/numeric/int128.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
namespace arolla {
struct Fingerprint {
  absl::uint128 value;
  std::string AsString() const;
  ptrdiff_t PythonHash() const { return static_cast<ptrdiff_t>(absl::Uint128Low64(value)); }
  friend bool operator==(const Fingerprint& a, const Fingerprint& b) { return a.value == b.value; }
  friend bool operator!=(const Fingerprint& a, const Fingerprint& b) { return !(a == b); }
  friend bool operator<(const Fingerprint& a, const Fingerprint& b) { return a.value < b.value; }
  friend std::ostream& operator<<(std::ostream& o, const Fingerprint& f) { return o << f.AsString(); }
  template <typename H> friend H AbslHashValue(H h, const Fingerprint& f) { return H::combine(std::move(h), f.value); }
};
Fingerprint RandomFingerprint();
Fingerprint FingerprintOfString(absl::string_view s);
class FingerprintHasher;
template <typename T, typename = void> struct FingerprintHasherTraits { FingerprintHasherTraits() = delete; };
namespace verif_ar {
template <typename T, typename = void> struct HasMethod : std::false_type {};
template <typename T> struct HasMethod<T, std::void_t<decltype(std::declval<const T&>().ArollaFingerprint(std::declval<FingerprintHasher*>()))>> : std::true_type {};
}
class FingerprintHasher {
 public:
  explicit FingerprintHasher(absl::string_view salt) { CombineRawBytes(salt.data(), salt.size()); }
  template <typename... A> FingerprintHasher& Combine(const A&... a) & { (One(a), ...); return *this; }
  template <typename... A> FingerprintHasher&& Combine(const A&... a) && { (One(a), ...); return std::move(*this); }
  template <typename S> FingerprintHasher& CombineSpan(S&& s) & { Combine(s.size()); for (auto& x : s) Combine(x); return *this; }
  template <typename S> FingerprintHasher&& CombineSpan(S&& s) && { Combine(s.size()); for (auto& x : s) Combine(x); return std::move(*this); }
  FingerprintHasher& CombineRawBytes(const void* p, size_t n);
  Fingerprint Finish() && { return Fingerprint{absl::MakeUint128(hi_, lo_)}; }
 private:
  template <typename T> void One(const T& x) {
    if constexpr (verif_ar::HasMethod<T>::value) x.ArollaFingerprint(this);
    else if constexpr (std::is_same_v<T, Unit>) {}
    else if constexpr (std::is_convertible_v<const T&, absl::string_view>) { absl::string_view v = x; One(v.size()); CombineRawBytes(v.data(), v.size()); }
    else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T> || std::is_pointer_v<T> || std::is_same_v<T, Fingerprint>) CombineRawBytes(&x, sizeof(x));
    else FingerprintHasherTraits<T>()(this, x);
  }
  uint64_t lo_ = 0xcbf29ce484222325ull, hi_ = 17;
};
}  // namespace arolla
#define AROLLA_DECLARE_FINGERPRINT_HASHER_TRAITS(...) \
  template <> struct FingerprintHasherTraits<__VA_ARGS__> { void operator()(FingerprintHasher* hasher, const __VA_ARGS__& value) const; }
#endif
