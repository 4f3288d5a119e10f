#ifndef VERIF_AR_TEXT_H_
#define VERIF_AR_TEXT_H_
#include <ostream>
#include <string>
#include <utility>
#include "absl/strings/string_view.h"
namespace arolla {
class Text {
 public:
  Text() = default;
  explicit Text(const char* s) : s_(s) {}
  explicit Text(absl::string_view s) : s_(s) {}
  explicit Text(std::string s) : s_(std::move(s)) {}
  Text& operator=(const char* s) { s_ = s; return *this; }
  Text& operator=(absl::string_view s) { s_.assign(s.data(), s.size()); return *this; }
  Text& operator=(std::string&& s) { s_ = std::move(s); return *this; }
  absl::string_view view() const { return s_; }
  operator absl::string_view() const { return s_; }
  friend bool operator==(const Text& a, const Text& b) { return a.s_ == b.s_; }
  friend bool operator==(const char* a, const Text& b) { return a == b.s_; }
  friend bool operator==(const Text& a, const char* b) { return a.s_ == b; }
  friend bool operator!=(const Text& a, const Text& b) { return a.s_ != b.s_; }
  friend bool operator<(const Text& a, const Text& b) { return a.s_ < b.s_; }
  friend bool operator<=(const Text& a, const Text& b) { return a.s_ <= b.s_; }
  friend bool operator>(const Text& a, const Text& b) { return a.s_ > b.s_; }
  friend bool operator>=(const Text& a, const Text& b) { return a.s_ >= b.s_; }
  template <typename H> friend H AbslHashValue(H h, const Text& t) { return H::combine(std::move(h), t.s_); }
  friend std::ostream& operator<<(std::ostream& o, const Text& t) { return o << "TEXT{" << t.s_ << "}"; }
 private:
  std::string s_;
};
}
#endif
