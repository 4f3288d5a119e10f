// Replaces the installed header, whose AlphaNum does not know AbslStringify.
#ifndef ABSL_STRINGS_STR_CAT_H_
#define ABSL_STRINGS_STR_CAT_H_
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/base/port.h"
#include "absl/strings/numbers.h"
#include "absl/strings/string_view.h"
namespace verif_str {
class Sink {
 public:
  explicit Sink(std::string* s) : s_(s) {}
  void Append(absl::string_view v) { s_->append(v.data(), v.size()); }
  void Append(size_t n, char c) { s_->append(n, c); }
  bool PutPaddedString(absl::string_view v, int, int, bool) { Append(v); return true; }
  friend void AbslFormatFlush(Sink* s, absl::string_view v) { s->Append(v); }
 private:
  std::string* s_;
};
template <typename T, typename = void> struct HasStringify : std::false_type {};
template <typename T> struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<Sink&>(), std::declval<const T&>()))>> : std::true_type {};
template <typename T> std::string Text(const T& x) {
  if constexpr (HasStringify<T>::value) { std::string r; Sink s(&r); AbslStringify(s, x); return r; }
  else if constexpr (std::is_same_v<T, bool>) return x ? "1" : "0";
  else if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double>) { char b[64]; snprintf(b, sizeof b, "%.6g", static_cast<double>(x)); return b; }
  else if constexpr (std::is_integral_v<T>) return std::to_string(x);
  else if constexpr (std::is_enum_v<T>) return std::to_string(static_cast<long long>(x));
  else if constexpr (std::is_same_v<T, std::nullptr_t>) return "";
  else if constexpr (std::is_convertible_v<const T&, const char*>) { const char* p = x; return p ? p : ""; }
  else if constexpr (std::is_convertible_v<const T&, absl::string_view>) return std::string(absl::string_view(x));
  else if constexpr (std::is_convertible_v<const T&, bool> && requires(const T& t) { t.operator bool(); }) return static_cast<bool>(x) ? "1" : "0";
  else return x.verif_no_text();
}
}
namespace absl {
ABSL_NAMESPACE_BEGIN
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16 };
struct Hex {
  uint64_t v; int w;
  template <typename T> explicit Hex(T x, PadSpec p = kNoPad) : v(static_cast<uint64_t>(static_cast<std::make_unsigned_t<T>>(x))), w(p) {}
  template <typename S> friend void AbslStringify(S& s, const Hex& h) { char b[40]; snprintf(b, sizeof b, "%0*llx", h.w, static_cast<unsigned long long>(h.v)); s.Append(b); }
};
struct Dec {
  long long v; int w;
  template <typename T> explicit Dec(T x, PadSpec p = kNoPad) : v(x), w(p) {}
  template <typename S> friend void AbslStringify(S& s, const Dec& h) { char b[40]; snprintf(b, sizeof b, "%0*lld", h.w, h.v); s.Append(b); }
};
class AlphaNum {
 public:
  template <typename T, typename = std::enable_if_t<!std::is_same_v<T, AlphaNum>>> AlphaNum(const T& x) : s_(verif_str::Text(x)) {}
  AlphaNum(const AlphaNum&) = delete;
  string_view Piece() const { return s_; }
  template <typename S> friend void AbslStringify(S& s, const AlphaNum& a) { s.Append(a.s_); }
  const char* data() const { return s_.data(); }
  size_t size() const { return s_.size(); }
 private:
  std::string s_;
};
template <typename... A> ABSL_MUST_USE_RESULT std::string StrCat(const A&... a) { std::string r; (r.append(verif_str::Text(a)), ...); return r; }
template <typename... A> void StrAppend(std::string* d, const A&... a) { std::string r; (r.append(verif_str::Text(a)), ...); d->append(r); }
namespace strings_internal {
inline std::string CatPieces(std::initializer_list<string_view> p) { std::string r; for (auto x : p) r.append(x.data(), x.size()); return r; }
inline void AppendPieces(std::string* d, std::initializer_list<string_view> p) { for (auto x : p) d->append(x.data(), x.size()); }
}
ABSL_NAMESPACE_END
}
#endif
