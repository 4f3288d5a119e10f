#ifndef VERIF_AR_BITMAP_H_
#define VERIF_AR_BITMAP_H_
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <vector>
#include "absl/log/check.h"
#include "absl/numeric/bits.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/optional_value.h"
namespace arolla::bitmap {
using Word = uint32_t;
constexpr int kWordBitCount = 32;
constexpr Word kFullWord = ~Word(0);
using Bitmap = SimpleBuffer<Word>;
inline int64_t BitmapSize(int64_t n) { return (n + kWordBitCount - 1) / kWordBitCount; }
inline Word GetWord(const Bitmap& b, int64_t i) { return b.size() <= i ? kFullWord : b[i]; }
inline Word GetWordWithOffset(const Bitmap& b, int64_t i, int off) {
  if (b.size() <= i) return kFullWord;
  Word m = b[i] >> off;
  if (off == 0 || i + 1 == b.size()) return m;
  return m | (b[i + 1] << (kWordBitCount - off));
}
inline bool GetBit(Word w, int i) { return w & (Word(1) << i); }
inline bool GetBit(const Word* b, int64_t i) { return b[i / kWordBitCount] & (Word(1) << (i % kWordBitCount)); }
inline bool GetBit(const Bitmap& b, int64_t i) { if (b.empty()) return true; DCHECK_LT(i / kWordBitCount, b.size()); return GetBit(b.begin(), i); }
inline void SetBit(Word* b, int64_t i) { b[i / kWordBitCount] |= Word(1) << (i % kWordBitCount); }
inline void UnsetBit(Word* b, int64_t i) { b[i / kWordBitCount] &= ~(Word(1) << (i % kWordBitCount)); }
inline bool AreAllBitsSet(const Word* b, int64_t n) { for (int64_t i = 0; i < n; ++i) if (!GetBit(b, i)) return false; return true; }
inline bool AreAllBitsUnset(const Word* b, int64_t n) { for (int64_t i = 0; i < n; ++i) if (GetBit(b, i)) return false; return true; }
inline int64_t CountBits(const Bitmap& b, int64_t off, int64_t n) {
  int64_t r = 0; for (int64_t i = 0; i < n; ++i) r += GetBit(b, off + i); return r;
}
inline bool AllBits(const Bitmap& b) { for (Word w : b) if (w != kFullWord) return false; return true; }
template <typename F> void IterateWord(Word w, F&& f, int count = kWordBitCount) { for (int i = 0; i < count; ++i) f(i, GetBit(w, i)); }
// init_fn(offset) returns fn(i, bool), used for the next 32 bits or less.
template <typename F> void IterateByGroups(const Word* b, int64_t first, int64_t n, F&& init) {
  for (int64_t o = 0; o < n; o += kWordBitCount) {
    auto f = init(o);
    for (int64_t i = 0; i < kWordBitCount && o + i < n; ++i) f(i, GetBit(b, first + o + i));
  }
}
template <typename F> void Iterate(const Bitmap& b, int64_t first, int64_t n, F&& f) { for (int64_t i = 0; i < n; ++i) f(GetBit(b, first + i)); }
template <typename F> void Iterate(const Word* b, int64_t first, int64_t n, F&& f) { for (int64_t i = 0; i < n; ++i) f(GetBit(b, first + i)); }
template <typename F> void Intersect(const Bitmap& a, const Bitmap& b, int oa, int ob, F&&) = delete;
inline Bitmap CreateEmptyBitmap(int64_t n, RawBufferFactory* = nullptr) { return Bitmap::CreateFull(BitmapSize(n), 0); }
class RawBuilder {
 public:
  explicit RawBuilder(int64_t n, RawBufferFactory* = nullptr) : b_(BitmapSize(n)) {}
  Bitmap Build() && { return std::move(b_).Build(); }
 private:
  Bitmap::Builder b_;
};
class AlmostFullBuilder {
 public:
  explicit AlmostFullBuilder(int64_t n, RawBufferFactory* = nullptr) : n_(n) {}
  void AddMissed(int64_t i) {
    DCHECK_GE(i, 0); DCHECK_LT(i, n_);
    if (w_.empty()) w_.resize(BitmapSize(n_), kFullWord);
    UnsetBit(w_.data(), i);
  }
  Bitmap Build() && { return Bitmap::Create(w_.begin(), w_.end()); }
  Bitmap Build(int64_t n) && {
    DCHECK_LE(n, n_);
    if (w_.empty()) return {};
    bool full = true;
    for (int64_t i = 0; i < n; ++i) full &= GetBit(w_.data(), i);
    if (full) return {};
    return Bitmap::Create(w_.begin(), w_.begin() + BitmapSize(n));
  }
 private:
  int64_t n_;
  std::vector<Word> w_;
};
class Builder {
 public:
  explicit Builder(int64_t n, RawBufferFactory* = nullptr) : w_(BitmapSize(n), 0) {}
  template <typename Fn> void AddByGroups(int64_t count, Fn&& init) {
    for (int64_t o = 0; o < count; o += kWordBitCount) {
      auto f = init(o);
      for (int64_t i = 0; i < kWordBitCount && o + i < count; ++i) { if (f(i)) SetBit(w_.data(), cur_ + o + i); else all_ = false; }
    }
    cur_ += count;
  }
  template <typename C, typename Fn> void AddForEach(const C& c, Fn&& f) {
    for (auto&& x : c) { if (f(x)) SetBit(w_.data(), cur_); else all_ = false; ++cur_; }
  }
  Bitmap Build() && { if (all_) return {}; return Bitmap::Create(w_.begin(), w_.end()); }
 private:
  std::vector<Word> w_;
  int64_t cur_ = 0;
  bool all_ = true;
};
}
#endif
