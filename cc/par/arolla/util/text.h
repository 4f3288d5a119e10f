#ifndef VERIF_AROLLA_TEXT_H_
#define VERIF_AROLLA_TEXT_H_
#include <string>
#include <utility>
#include "absl/strings/string_view.h"
namespace arolla {
class Text {
 public:
  Text() = default;
  explicit Text(absl::string_view s) : s_(s) {}
  explicit Text(const char* s) : s_(s) {}
  explicit Text(std::string s) : s_(std::move(s)) {}
  absl::string_view view() const { return s_; }
  operator absl::string_view() const { return s_; }
  friend bool operator==(const Text& a, const Text& b) { return a.s_ == b.s_; }
 private:
  std::string s_;
};
}
#endif
