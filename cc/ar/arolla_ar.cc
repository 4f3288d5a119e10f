// The out-of-line part of the stand-in for arolla (single-threaded users).
#include <charconv>
#include <cmath>
#include <cstdio>
#include <map>
#include <memory>
#include <string>
#include "absl/strings/str_join.h"
#include "arolla/dense_array/edge.h"
#include "arolla/expr/quote.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/qtype.h"
#include "arolla/util/cityhash.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/repr.h"
#include "arolla/util/status.h"
#include "arolla/util/status_macros_backport.h"
namespace arolla {
AROLLA_DEFINE_SIMPLE_QTYPE(INT32, int32_t)
AROLLA_DEFINE_SIMPLE_QTYPE(INT64, int64_t)
AROLLA_DEFINE_SIMPLE_QTYPE(UINT64, uint64_t)
AROLLA_DEFINE_SIMPLE_QTYPE(FLOAT32, float)
AROLLA_DEFINE_SIMPLE_QTYPE(FLOAT64, double)
AROLLA_DEFINE_SIMPLE_QTYPE(BOOLEAN, bool)
AROLLA_DEFINE_SIMPLE_QTYPE(BYTES, std::string)
AROLLA_DEFINE_SIMPLE_QTYPE(TEXT, Text)
AROLLA_DEFINE_SIMPLE_QTYPE(UNIT, Unit)
AROLLA_DEFINE_SIMPLE_QTYPE(EXPR_QUOTE, expr::ExprQuote)
QTypePtr GetQTypeQType() {
  static const SimpleQType* q = new SimpleQType(meta::type<QTypePtr>(), "QTYPE");
  return q;
}
namespace {
class NothingQType final : public QType {
 public:
  NothingQType() : QType("NOTHING", typeid(void), FrameLayout::Of<void>()) {}
  void UnsafeCopy(const void*, void*) const final {}
  void UnsafeCombineToFingerprintHasher(const void*, FingerprintHasher*) const final {}
  ReprToken UnsafeReprToken(const void*) const final { return {"nothing"}; }
};
uint64_t Mix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ (x >> 31);
}
class Heap final : public RawBufferFactory {
  std::tuple<RawBufferPtr, void*> CreateRawBuffer(size_t n) final {
    void* p = ::operator new(n ? n : 1);
    return {std::shared_ptr<const void>(p, [](const void* q) { ::operator delete(const_cast<void*>(q)); }), p};
  }
};
}  // namespace
QTypePtr GetNothingQType() { static const NothingQType* q = new NothingQType(); return q; }
RawBufferFactory* GetHeapBufferFactory() { static Heap* h = new Heap(); return h; }
uint64_t CityHash64WithSeed(const void* p, size_t n, uint64_t seed) {
  const auto* c = static_cast<const unsigned char*>(p);
  uint64_t h = Mix(seed + 0x9e3779b97f4a7c15ull * (n + 1));
  for (size_t i = 0; i < n; i += 8) {
    uint64_t w = 0; std::memcpy(&w, c + i, n - i < 8 ? n - i : 8);
    h = Mix((h ^ w) + 0x9e3779b97f4a7c15ull);
  }
  return h;
}
uint64_t CityHash64(const void* p, size_t n) { return CityHash64WithSeed(p, n, 0x1234); }
std::pair<uint64_t, uint64_t> CityHash128WithSeed(const void* p, size_t n, std::pair<uint64_t, uint64_t> s) {
  uint64_t a = CityHash64WithSeed(p, n, s.first * 3 + Mix(s.second)), b = CityHash64WithSeed(p, n, s.second * 5 + Mix(s.first + 77));
  return {a, b};
}
std::string Fingerprint::AsString() const { char b[40]; snprintf(b, sizeof b, "%016lx%016lx", absl::Uint128High64(value), absl::Uint128Low64(value)); return b; }
Fingerprint RandomFingerprint() { static uint64_t n = 0; ++n; return Fingerprint{absl::MakeUint128(Mix(n), Mix(n + 0x5555))}; }
Fingerprint FingerprintOfString(absl::string_view s) { return FingerprintHasher("str").Combine(s).Finish(); }
FingerprintHasher& FingerprintHasher::CombineRawBytes(const void* p, size_t n) {
  auto r = CityHash128WithSeed(p, n, {lo_, hi_}); lo_ = r.first; hi_ = r.second; return *this;
}
namespace verif_ar {
std::string Quote(absl::string_view s) { return "'" + std::string(s) + "'"; }
template <typename T> std::string Num(T x) {
  if (std::isnan(x)) return "nan";
  if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
  char b[64]; auto r = std::to_chars(b, b + 64, x); std::string s(b, r.ptr);
  if (s.find_first_of(".e") == std::string::npos) s += ".";
  return s;
}
std::string ReprNum(float x) { return Num(x); }
std::string ReprNum(double x) { return Num(x); }
absl::Status Attach(absl::Status s, Extra e) { if (!s.ok()) s.verif_extra = std::make_shared<Extra>(std::move(e)); return s; }
const Extra* Get(const absl::Status& s) { return static_cast<const Extra*>(s.verif_extra.get()); }
}  // namespace verif_ar
absl::Status SizeMismatchError(std::initializer_list<int64_t> sizes) {
  return absl::InvalidArgumentError(absl::StrCat("argument sizes mismatch: (", absl::StrJoin(sizes, ", "), ")"));
}
absl::StatusOr<DenseArrayEdge> DenseArrayEdge::FromSplitPoints(DenseArray<int64_t> sp) {
  if (!sp.IsFull()) return absl::InvalidArgumentError("split points must be full");
  if (sp.empty()) return absl::InvalidArgumentError("split points array must have at least 1 element");
  if (sp.values[0] != 0) return absl::InvalidArgumentError("split points array must have first element equal to 0");
  for (int64_t i = 1; i < sp.size(); ++i) if (sp.values[i] < sp.values[i - 1]) return absl::InvalidArgumentError("split points must be sorted");
  return UnsafeFromSplitPoints(std::move(sp));
}
DenseArrayEdge DenseArrayEdge::UnsafeFromSplitPoints(DenseArray<int64_t> sp) {
  int64_t p = sp.size() - 1, c = sp.values.back();
  return DenseArrayEdge(SPLIT_POINTS, p, c, std::move(sp));
}
absl::StatusOr<DenseArrayEdge> DenseArrayEdge::FromMapping(DenseArray<int64_t> m, int64_t n) {
  if (n < 0) return absl::InvalidArgumentError("parent_size can not be negative");
  absl::Status s;
  m.ForEachPresent([&](int64_t, int64_t v) { if (v < 0 || v >= n) s = absl::InvalidArgumentError("mapping values out of range"); });
  if (!s.ok()) return s;
  return UnsafeFromMapping(std::move(m), n);
}
DenseArrayEdge DenseArrayEdge::UnsafeFromMapping(DenseArray<int64_t> m, int64_t n) { int64_t c = m.size(); return DenseArrayEdge(MAPPING, n, c, std::move(m)); }
absl::StatusOr<DenseArrayEdge> DenseArrayEdge::FromUniformGroups(int64_t parent, int64_t group, RawBufferFactory*) {
  if (parent < 0 || group < 0) return absl::InvalidArgumentError("parent_size and group_size cannot be negative");
  Buffer<int64_t>::Builder b(parent + 1);
  for (int64_t i = 0; i <= parent; ++i) b.Set(i, i * group);
  return UnsafeFromSplitPoints({std::move(b).Build()});
}
DenseArrayEdge DenseArrayEdge::ToMappingEdge(RawBufferFactory*) const {
  if (type_ == MAPPING) return *this;
  Buffer<int64_t>::Builder b(child_);
  for (int64_t i = 0; i < parent_; ++i) for (int64_t j = v_.values[i]; j < v_.values[i + 1]; ++j) b.Set(j, i);
  return UnsafeFromMapping({std::move(b).Build()}, parent_);
}
absl::StatusOr<DenseArrayEdge> DenseArrayEdge::ToSplitPointsEdge(RawBufferFactory*) const {
  if (type_ == SPLIT_POINTS) return *this;
  if (!v_.IsFull()) return absl::InvalidArgumentError("expected a full mapping");
  std::vector<int64_t> sp(parent_ + 1, 0);
  for (int64_t i = 0; i < child_; ++i) {
    if (i && v_.values[i] < v_.values[i - 1]) return absl::InvalidArgumentError("expected a sorted mapping");
    ++sp[v_.values[i] + 1];
  }
  for (int64_t i = 0; i < parent_; ++i) sp[i + 1] += sp[i];
  return UnsafeFromSplitPoints({Buffer<int64_t>::Create(std::move(sp))});
}
bool DenseArrayEdge::IsEquivalentTo(const DenseArrayEdge& o) const {
  if (parent_ != o.parent_ || child_ != o.child_) return false;
  if (type_ == o.type_) return ArraysAreEquivalent(v_, o.v_);
  return ArraysAreEquivalent(ToMappingEdge().v_, o.ToMappingEdge().v_);
}
absl::StatusOr<DenseArrayEdge> DenseArrayEdge::ComposeEdges(absl::Span<const DenseArrayEdge> es, RawBufferFactory*) {
  if (es.empty()) return absl::InvalidArgumentError("at least one edge must be present");
  for (size_t i = 0; i + 1 < es.size(); ++i) if (es[i].child_ != es[i + 1].parent_) return absl::InvalidArgumentError("incompatible edges");
  bool split = true; for (auto& e : es) split &= e.type_ == SPLIT_POINTS;
  if (split) {
    std::vector<int64_t> sp(es[0].v_.values.begin(), es[0].v_.values.end());
    for (size_t i = 1; i < es.size(); ++i) for (auto& x : sp) x = es[i].v_.values[x];
    return UnsafeFromSplitPoints({Buffer<int64_t>::Create(std::move(sp))});
  }
  auto last = es.back().ToMappingEdge();
  DenseArrayBuilder<int64_t> b(last.child_);
  std::vector<DenseArrayEdge> ms; for (auto& e : es) ms.push_back(e.ToMappingEdge());
  for (int64_t i = 0; i < last.child_; ++i) {
    OptionalValue<int64_t> k(i);
    for (int j = ms.size() - 1; j >= 0 && k.present; --j) k = ms[j].v_[k.value];
    b.Set(i, k);
  }
  return UnsafeFromMapping(std::move(b).Build(), es[0].parent_);
}
}  // namespace arolla
namespace arolla::verif_ar {
bool ValidUtf8(absl::string_view s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i]; int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : (c & 0xf0) == 0xe0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if (n < 0 || i + n >= s.size() + 0 && n > 0) return false;
    for (int k = 1; k <= n; ++k) if ((static_cast<unsigned char>(s[i + k]) & 0xc0) != 0x80) return false;
    i += n + 1;
  }
  return true;
}
}

// Abseil's string functions over its string_view (here: std::string_view).
#include "absl/strings/escaping.h"
#include "absl/strings/str_replace.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
static std::string VerifCHex(absl::string_view s, bool utf8) {
  std::string r; bool hex = false;
  for (unsigned char c : s) {
    bool was = hex; hex = false; char b[8];
    switch (c) {
      case '\n': r += "\\n"; break;
      case '\r': r += "\\r"; break;
      case '\t': r += "\\t"; break;
      case '"': r += "\\\""; break;
      case '\'': r += "\\'"; break;
      case '\\': r += "\\\\"; break;
      default:
        if ((!utf8 || c < 0x80) && (c < 0x20 || c >= 0x7f || (was && isxdigit(c)))) { snprintf(b, sizeof b, "\\x%02x", c); r += b; hex = true; }
        else r += static_cast<char>(c);
    }
  }
  return r;
}
std::string CHexEscape(absl::string_view s) { return VerifCHex(s, false); }
std::string Utf8SafeCHexEscape(absl::string_view s) { return VerifCHex(s, true); }
std::string StrReplaceAll(absl::string_view s, std::initializer_list<std::pair<absl::string_view, absl::string_view>> rs) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    const std::pair<absl::string_view, absl::string_view>* best = nullptr;
    for (auto& x : rs) if (!x.first.empty() && s.substr(i, x.first.size()) == x.first && (!best || x.first.size() > best->first.size())) best = &x;
    if (best) { r += best->second; i += best->first.size(); } else r += s[i++];
  }
  return r;
}
ABSL_NAMESPACE_END
}  // namespace absl
