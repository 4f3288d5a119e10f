// Replaces the installed header, which does not know %v and AbslStringify.
#ifndef ABSL_STRINGS_STR_FORMAT_H_
#define ABSL_STRINGS_STR_FORMAT_H_
#include <cctype>
#include <cstdio>
#include <cstring>
#include <initializer_list>
#include <memory>
#include <string>
#include "absl/strings/str_cat.h"
#include "absl/types/span.h"
namespace verif_str {
struct Arg {
  enum { kInt, kUInt, kFloat, kText } kind;
  long long i = 0; unsigned long long u = 0; double d = 0; std::string s;
  template <typename T> static Arg Of(const T& x) {
    Arg a;
    a.s = Text(x);
    if constexpr (HasStringify<T>::value) a.kind = kText;
    else if constexpr (std::is_floating_point_v<T>) { a.kind = kFloat; a.d = x; }
    else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) { a.kind = kInt; a.i = x; a.u = x; }
    else if constexpr (std::is_integral_v<T>) { a.kind = kUInt; a.u = x; a.i = x; }
    else a.kind = kText;
    if constexpr (std::is_same_v<T, bool>) a.s = x ? "true" : "false";
    return a;
  }
};
inline std::string Format(absl::string_view f, std::initializer_list<Arg> args) {
  std::string r; auto it = args.begin();
  for (size_t k = 0; k < f.size(); ++k) {
    if (f[k] != '%') { r += f[k]; continue; }
    if (k + 1 < f.size() && f[k + 1] == '%') { r += '%'; ++k; continue; }
    std::string spec = "%"; ++k;
    const Arg* pick = nullptr;
    while (k < f.size() && (isdigit(f[k]) || strchr("-+ #0.*$", f[k]))) {
      if (f[k] == '*') { spec += std::to_string(it->i); ++it; }
      else if (f[k] == '$') { pick = args.begin() + std::stoi(spec.substr(1)) - 1; spec = "%"; }
      else spec += f[k];
      ++k;
    }
    while (k < f.size() && strchr("hlLqjzt", f[k])) ++k;
    if (k >= f.size()) break;
    char c = f[k];
    if (!pick && it == args.end()) { r += "<missing argument>"; continue; }
    const Arg& a = pick ? *pick : *it++;
    char b[512];
    if (c == 'v' || c == 's') {
      if (spec == "%") r += a.s; else { snprintf(b, sizeof b, (spec + "s").c_str(), a.s.c_str()); r += b; }
    } else if (c == 'c') r += static_cast<char>(a.i);
    else if (c == 'd' || c == 'i') { snprintf(b, sizeof b, (spec + "lld").c_str(), a.i); r += b; }
    else if (strchr("uxXo", c)) { snprintf(b, sizeof b, (spec + "ll" + c).c_str(), a.u); r += b; }
    else { snprintf(b, sizeof b, (spec + c).c_str(), a.kind == Arg::kFloat ? a.d : static_cast<double>(a.i)); r += b; }
  }
  return r;
}
}
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename... A> ABSL_MUST_USE_RESULT std::string StrFormat(string_view f, const A&... a) { return verif_str::Format(f, {verif_str::Arg::Of(a)...}); }
template <typename... A> std::string StreamFormat(string_view f, const A&... a) { return verif_str::Format(f, {verif_str::Arg::Of(a)...}); }
enum class FormatConversionCharSet { kFloating, kIntegral, kString };
template <auto... C> class ParsedFormat {
 public:
  explicit ParsedFormat(string_view f) : f_(f) {}
  operator string_view() const { return f_; }
  static std::unique_ptr<ParsedFormat> New(string_view f) { return std::make_unique<ParsedFormat>(f); }
 private:
  std::string f_;
};
template <typename S, typename... A> bool Format(S* sink, string_view f, const A&... a) { sink->Append(verif_str::Format(f, {verif_str::Arg::Of(a)...})); return true; }
template <typename... A> std::string& StrAppendFormat(std::string* d, string_view f, const A&... a) { return d->append(verif_str::Format(f, {verif_str::Arg::Of(a)...})); }
ABSL_NAMESPACE_END
}
#endif
