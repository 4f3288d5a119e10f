#ifndef VERIF_AROLLA_FINGERPRINT_H_
#define VERIF_AROLLA_FINGERPRINT_H_
#include <cstdint>
#include <functional>
#include <ostream>
#include <string>
#include <type_traits>
#include "absl/strings/string_view.h"
#include "verif_fatal.h"
namespace arolla {
struct Fingerprint {
  uint64_t lo = 0, hi = 0;
  friend bool operator==(const Fingerprint& a, const Fingerprint& b) { return a.lo == b.lo && a.hi == b.hi; }
  friend bool operator!=(const Fingerprint& a, const Fingerprint& b) { return !(a == b); }
  friend bool operator<(const Fingerprint& a, const Fingerprint& b) { return a.lo < b.lo || (a.lo == b.lo && a.hi < b.hi); }
  friend std::ostream& operator<<(std::ostream& o, const Fingerprint& f) { return o << f.hi << ":" << f.lo; }
  template <typename H> friend H AbslHashValue(H h, const Fingerprint& f) { return H::combine(std::move(h), f.lo, f.hi); }
  std::string AsString() const { return std::to_string(hi) + ":" + std::to_string(lo); }
};
inline Fingerprint RandomFingerprint() { return Fingerprint{verif_unique(), 0x5eed}; }
class FingerprintHasher;
template <typename T, typename = void> struct FingerprintHasherTraits { void operator()(FingerprintHasher* h, const T& v) const; };
class FingerprintHasher {
 public:
  explicit FingerprintHasher(absl::string_view salt) { Bytes(salt.data(), salt.size()); }
  template <typename... A> FingerprintHasher& Combine(const A&... a) & { (FingerprintHasherTraits<A>()(this, a), ...); return *this; }
  template <typename... A> FingerprintHasher&& Combine(const A&... a) && { (FingerprintHasherTraits<A>()(this, a), ...); return std::move(*this); }
  void Bytes(const void* p, size_t n) {
    auto* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { f_.lo = (f_.lo ^ c[i]) * 0x100000001b3ull; f_.hi = (f_.hi + c[i] + 1) * 0x9e3779b97f4a7c15ull ^ (f_.lo >> 7); }
  }
  Fingerprint Finish() && { return f_; }
 private:
  Fingerprint f_{0xcbf29ce484222325ull, 17};
};
template <typename T, typename D>
void FingerprintHasherTraits<T, D>::operator()(FingerprintHasher* h, const T& v) const {
  if constexpr (std::is_same_v<T, std::string>) h->Bytes(v.data(), v.size());
  else if constexpr (std::is_same_v<T, Fingerprint>) { h->Bytes(&v, sizeof(v)); }
  else if constexpr (std::is_arithmetic_v<T> || std::is_pointer_v<T>) h->Bytes(&v, sizeof(v));
  else {}
}
}  // namespace arolla
#define AROLLA_DECLARE_FINGERPRINT_HASHER_TRAITS(...) \
  template <> struct FingerprintHasherTraits<__VA_ARGS__> { void operator()(FingerprintHasher* hasher, const __VA_ARGS__& value) const; }
#endif
