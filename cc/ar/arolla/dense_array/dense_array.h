#ifndef VERIF_AR_DENSE_ARRAY_H_
#define VERIF_AR_DENSE_ARRAY_H_
#include <cstdint>
#include <initializer_list>
#include <optional>
#include <ostream>
#include <utility>
#include <vector>
#include "absl/log/check.h"
#include "absl/types/span.h"
#include "arolla/dense_array/bitmap.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/optional_value.h"
#include "arolla/util/api.h"
#include "arolla/util/bits.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/iterator.h"
#include "arolla/util/unit.h"
#include "arolla/util/view_types.h"
namespace arolla {
template <typename T> struct DenseArray {
  using base_type = T;
  using value_type = OptionalValue<view_type_t<T>>;
  using size_type = int64_t;
  using const_iterator = ConstArrayIterator<DenseArray<T>>;
  using difference_type = int64_t;
  using offset_type = int64_t;
  using Buffer = arolla::Buffer<T>;
  arolla::Buffer<T> values;
  bitmap::Bitmap bitmap;
  int bitmap_bit_offset = 0;
  int64_t size() const { return values.size(); }
  bool empty() const { return values.empty(); }
  bool IsFull() const { return PresentCount() == size(); }
  int64_t PresentCount() const { return bitmap.empty() ? size() : bitmap::CountBits(bitmap, bitmap_bit_offset, size()); }
  bool IsAllMissing() const { return PresentCount() == 0; }
  bool IsAllPresent() const { return bitmap.empty() || PresentCount() == size(); }
  bool present(int64_t i) const { DCHECK_GE(i, 0); DCHECK_LT(i, size()); DCHECK(CheckBitmapMatchesValues()); return bitmap::GetBit(bitmap, i + bitmap_bit_offset); }
  value_type operator[](int64_t i) const { if (present(i)) return {true, values[i]}; return std::nullopt; }
  bool is_owned() const { return values.is_owner() && (bitmap.is_owner() || bitmap.empty()); }
  DenseArray MakeOwned(RawBufferFactory* = nullptr) const {
    DenseArray r = *this;
    if (!values.is_owner()) r.values = values.DeepCopy();
    if (!bitmap.is_owner()) r.bitmap = bitmap.DeepCopy();
    return r;
  }
  DenseArray MakeUnowned() const { return {values.ShallowCopy(), bitmap.ShallowCopy(), bitmap_bit_offset}; }
  DenseArray Slice(int64_t start, int64_t n) const {
    DCHECK_GE(start, 0); DCHECK_GE(n, 0); DCHECK_LE(start + n, size());
    DenseArray r;
    r.values = values.Slice(start, n);
    if (!bitmap.empty()) {
      r.bitmap_bit_offset = (start + bitmap_bit_offset) & (bitmap::kWordBitCount - 1);
      int64_t b = (start + bitmap_bit_offset) / bitmap::kWordBitCount;
      int64_t e = (start + bitmap_bit_offset + n + bitmap::kWordBitCount - 1) / bitmap::kWordBitCount;
      r.bitmap = bitmap.Slice(b, e - b);
    }
    return r;
  }
  DenseArray ForceNoBitmapBitOffset(RawBufferFactory* = nullptr) && { return static_cast<const DenseArray&>(*this).ForceNoBitmapBitOffset(); }
  DenseArray ForceNoBitmapBitOffset(RawBufferFactory* = nullptr) const& {
    if (bitmap_bit_offset == 0) return *this;
    std::vector<bitmap::Word> w(bitmap::BitmapSize(size()), 0);
    for (int64_t i = 0; i < size(); ++i) if (present(i)) bitmap::SetBit(w.data(), i);
    return {values, bitmap::Bitmap::Create(w.begin(), w.end()), 0};
  }
  template <typename F> void ForEach(F&& f) const {
    DCHECK(CheckBitmapMatchesValues());
    for (int64_t i = 0; i < size(); ++i) f(i, bitmap::GetBit(bitmap, i + bitmap_bit_offset), values[i]);
  }
  template <typename F> void ForEachPresent(F&& f) const {
    DCHECK(CheckBitmapMatchesValues());
    for (int64_t i = 0; i < size(); ++i) if (bitmap::GetBit(bitmap, i + bitmap_bit_offset)) f(i, values[i]);
  }
  template <typename F> void ForEachByGroups(F&& init) const {
    for (int64_t o = 0; o < size(); o += 32) {
      auto f = init(o);
      for (int64_t i = o; i < size() && i < o + 32; ++i) f(i, bitmap::GetBit(bitmap, i + bitmap_bit_offset), values[i]);
    }
  }
  const_iterator begin() const { return const_iterator{this, 0}; }
  const_iterator end() const { return const_iterator{this, size()}; }
  DenseArray<Unit> ToMask() const { return {VoidBuffer(size()), bitmap, bitmap_bit_offset}; }
  bool CheckBitmapMatchesValues() const { return bitmap.empty() || bitmap.size() >= bitmap::BitmapSize(values.size() + bitmap_bit_offset); }
  void ArollaFingerprint(FingerprintHasher* h) const {
    h->Combine(size());
    for (int64_t i = 0; i < size(); ++i) { bool p = present(i); h->Combine(p); if (p) h->Combine(values[i]); }
  }
};
template <typename T> bool ArraysAreEquivalent(const DenseArray<T>& a, const DenseArray<T>& b) {
  if (a.size() != b.size()) return false;
  for (int64_t i = 0; i < a.size(); ++i) {
    if (a.present(i) != b.present(i)) return false;
    if (a.present(i) && !(a.values[i] == b.values[i])) return false;
  }
  return true;
}
template <typename T> bool operator==(const DenseArray<T>& a, const DenseArray<T>& b) { return ArraysAreEquivalent(a, b); }
template <typename T> std::ostream& operator<<(std::ostream& o, const DenseArray<T>& a) {
  o << "["; for (int64_t i = 0; i < a.size(); ++i) { if (i) o << ", "; if constexpr (requires { o << a[i]; }) o << a[i]; } return o << "]";
}
template <typename T> DenseArray<T> CreateConstDenseArray(int64_t n, view_type_t<T> v, RawBufferFactory* = nullptr) {
  typename Buffer<T>::Builder b(n); b.SetNConst(0, n, v); return DenseArray<T>{std::move(b).Build()};
}
template <typename T> DenseArray<T> CreateEmptyDenseArray(int64_t n, RawBufferFactory* = nullptr) {
  if constexpr (std::is_same_v<T, Unit>) return {VoidBuffer(n), bitmap::CreateEmptyBitmap(n)};
  else { typename Buffer<T>::Builder b(n); b.SetNConst(0, n, view_type_t<T>()); return {std::move(b).Build(), bitmap::CreateEmptyBitmap(n)}; }
}
template <typename T> class DenseArrayBuilder {
 public:
  using base_type = T;
  explicit DenseArrayBuilder(int64_t n, RawBufferFactory* = nullptr) : v_(n), w_(bitmap::BitmapSize(n), 0), n_(n) {
    if constexpr (!std::is_same_v<T, Unit> && !has_view_type_v<T>) v_.SetNConst(0, n, T{});
  }
  template <typename V> void Set(int64_t i, const V& v) {
    DCHECK_GE(i, 0); DCHECK_LT(i, n_);
    if constexpr (is_optional_v<V>) { if (v.present) Add1(i, v.value); else bitmap::UnsetBit(w_.data(), i); }
    else if constexpr (meta::is_wrapped_with_v<std::optional, V>) { if (v) Add1(i, *v); else bitmap::UnsetBit(w_.data(), i); }
    else if constexpr (std::is_same_v<V, std::nullopt_t>) bitmap::UnsetBit(w_.data(), i);
    else Add1(i, v);
  }
  template <typename V> void SetNConst(int64_t i, int64_t n, const V& v) { for (int64_t k = 0; k < n; ++k) Set(i + k, v); }
  template <typename V> void Add(int64_t i, const V& v) { Set(i, v); }
  template <typename V> void AddNConst(int64_t i, int64_t n, const V& v) { SetNConst(i, n, v); }
  DenseArray<T> Build() && { return std::move(*this).Build(n_); }
  DenseArray<T> Build(int64_t n) && {
    DCHECK_LE(n, n_);
    w_.resize(bitmap::BitmapSize(n));
    return {std::move(v_).Build(n), bitmap::Bitmap::Create(w_.begin(), w_.end())};
  }
 private:
  void Add1(int64_t i, view_type_t<T> v) { v_.Set(i, v); bitmap::SetBit(w_.data(), i); }
  typename Buffer<T>::Builder v_;
  std::vector<bitmap::Word> w_;
  int64_t n_;
};
template <typename T> DenseArray<T> CreateDenseArray(absl::Span<const OptionalValue<T>> v, RawBufferFactory* = nullptr) {
  DenseArrayBuilder<T> b(v.size()); for (size_t i = 0; i < v.size(); ++i) b.Set(i, v[i]); return std::move(b).Build();
}
template <typename T> DenseArray<T> CreateDenseArray(std::initializer_list<OptionalValue<T>> v, RawBufferFactory* = nullptr) {
  return CreateDenseArray<T>(absl::Span<const OptionalValue<T>>(v.begin(), v.size()));
}
template <typename To, typename C, typename = std::enable_if_t<!std::is_convertible_v<C, absl::Span<const OptionalValue<To>>>>>
DenseArray<To> CreateDenseArray(const C& v, RawBufferFactory* = nullptr) {
  DenseArrayBuilder<To> b(v.size()); int64_t i = 0; for (const auto& x : v) b.Set(i++, x); return std::move(b).Build();
}
template <typename T, typename It> DenseArray<T> CreateDenseArray(It b, It e, RawBufferFactory* = nullptr) {
  DenseArrayBuilder<T> r(std::distance(b, e)); for (int64_t i = 0; b != e; ++b, ++i) r.Set(i, *b); return std::move(r).Build();
}
template <typename T, typename It, typename = typename std::iterator_traits<It>::iterator_category>
DenseArray<T> CreateFullDenseArray(It b, It e, RawBufferFactory* = nullptr) { return {Buffer<T>::Create(b, e)}; }
template <typename T> DenseArray<T> CreateFullDenseArray(const std::vector<T>& v, RawBufferFactory* = nullptr) { return {Buffer<T>::Create(v.begin(), v.end())}; }
template <typename T> DenseArray<T> CreateFullDenseArray(std::initializer_list<T> v, RawBufferFactory* = nullptr) { return {Buffer<T>::Create(v.begin(), v.end())}; }
// The copy of the original never has offset bitmaps or unowned data.
}  // namespace arolla
#endif
