#ifndef VERIF_AR_STRINGS_OPS_H_
#define VERIF_AR_STRINGS_OPS_H_
#include <charconv>
#include <string>
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "arolla/util/bytes.h"
#include "arolla/util/repr.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
namespace arolla {
namespace verif_ar {
bool ValidUtf8(absl::string_view s);
template <typename T> absl::StatusOr<T> Parse(absl::string_view s, const char* what) {
  absl::string_view t = s; if (t.size() > 1 && t[0] == '+' && t[1] != '-') t.remove_prefix(1);
  T v{}; auto r = std::from_chars(t.data(), t.data() + t.size(), v);
  if (r.ec != std::errc() || r.ptr != t.data() + t.size() || t.empty()) return absl::InvalidArgumentError(absl::StrCat("unable to parse ", what, ": ", s));
  return v;
}
}
#define VERIF_PARSE(N, T, W) struct N { absl::StatusOr<T> operator()(absl::string_view s) const { return verif_ar::Parse<T>(s, W); } }
VERIF_PARSE(StringsParseInt32, int32_t, "INT32");
VERIF_PARSE(StringsParseInt64, int64_t, "INT64");
VERIF_PARSE(StringsParseFloat32, float, "FLOAT32");
VERIF_PARSE(StringsParseFloat64, double, "FLOAT64");
struct DecodeOp {
  absl::StatusOr<Text> operator()(absl::string_view s, absl::string_view = "strict") const { if (!verif_ar::ValidUtf8(s)) return absl::InvalidArgumentError("invalid UTF-8 sequence"); return Text(s); }
};
struct EncodeOp { Bytes operator()(absl::string_view s) const { return Bytes(s); } Bytes operator()(const Text& s) const { return Bytes(s.view()); } };
struct AsTextOp {
  Text operator()(absl::string_view s) const { return Text("b'" + std::string(s) + "'"); }
  Text operator()(const Bytes& s) const { return Text("b'" + s + "'"); }
  Text operator()(Unit) const { return Text("present"); }
  Text operator()(int32_t v) const { return Text(std::to_string(v)); }
  Text operator()(int64_t v) const { return Text(std::to_string(v)); }
  Text operator()(bool v) const { return Text(v ? "true" : "false"); }
  Text operator()(float v) const { return Text(verif_ar::ReprNum(v)); }
  Text operator()(double v) const { return Text(verif_ar::ReprNum(v)); }
};
}
#endif
