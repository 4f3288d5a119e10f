#ifndef VERIF_DOUBLE_CONVERSION_H_
#define VERIF_DOUBLE_CONVERSION_H_
#include <charconv>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <string>
namespace double_conversion {
class StringBuilder {
 public:
  StringBuilder(char* b, int n) : b_(b), n_(n) {}
  void Add(const std::string& s) { s_ += s; }
  char* Finalize() { strncpy(b_, s_.c_str(), n_ - 1); b_[n_ - 1] = 0; return b_; }
 private:
  char* b_; int n_; std::string s_;
};
class DoubleToStringConverter {
 public:
  enum Flags { NO_FLAGS = 0, EMIT_POSITIVE_EXPONENT_SIGN = 1, EMIT_TRAILING_DECIMAL_POINT = 2, EMIT_TRAILING_ZERO_AFTER_POINT = 4, UNIQUE_ZERO = 8 };
  DoubleToStringConverter(int flags, const char* inf, const char* nan, char e, int low, int high, int, int)
      : flags_(flags), inf_(inf), nan_(nan), e_(e), low_(low), high_(high) {}
  bool ToShortest(double x, StringBuilder* b) const { return Do(x, b); }
  bool ToShortestSingle(float x, StringBuilder* b) const { return Do(x, b); }
 private:
  template <typename T> bool Do(T x, StringBuilder* b) const {
    if (std::isnan(x)) { b->Add(nan_); return true; }
    if (std::isinf(x)) { b->Add((x < 0 ? "-" : "") + inf_); return true; }
    char t[64]; auto r = std::to_chars(t, t + 64, x, std::chars_format::scientific);
    std::string s(t, r.ptr), sign;
    if (s[0] == '-') { sign = (x == 0 && (flags_ & UNIQUE_ZERO)) ? "" : "-"; s = s.substr(1); }
    size_t p = s.find('e');
    int ex = atoi(s.c_str() + p + 1);
    std::string dg; for (char c : s.substr(0, p)) if (c != '.') dg += c;
    if (x == 0) { ex = 0; dg = "0"; }
    if (ex >= low_ && ex < high_) {
      std::string ip, fp;
      if (ex < 0) { ip = "0"; fp = std::string(-ex - 1, '0') + dg; }
      else if (static_cast<int>(dg.size()) <= ex + 1) ip = dg + std::string(ex + 1 - dg.size(), '0');
      else { ip = dg.substr(0, ex + 1); fp = dg.substr(ex + 1); }
      if (fp.empty()) { if (flags_ & EMIT_TRAILING_DECIMAL_POINT) ip += "."; if (flags_ & EMIT_TRAILING_ZERO_AFTER_POINT) ip += "0"; b->Add(sign + ip); }
      else b->Add(sign + ip + "." + fp);
    } else {
      std::string m = dg.substr(0, 1); if (dg.size() > 1) m += "." + dg.substr(1);
      b->Add(sign + m + e_ + (ex < 0 ? "-" : (flags_ & EMIT_POSITIVE_EXPONENT_SIGN) ? "+" : "") + std::to_string(std::abs(ex)));
    }
    return true;
  }
  int flags_; std::string inf_, nan_; char e_; int low_, high_;
};
}
#endif
