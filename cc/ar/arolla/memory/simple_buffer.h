#ifndef VERIF_AR_SIMPLE_BUFFER_H_
#define VERIF_AR_SIMPLE_BUFFER_H_
#include <algorithm>
#include <cstring>
#include <initializer_list>
#include <memory>
#include <new>
#include <optional>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/log/check.h"
#include "absl/types/span.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/util/fingerprint.h"
namespace arolla {
template <typename T> class SimpleBuffer {
 public:
  using value_type = T; using size_type = int64_t; using difference_type = int64_t; using const_iterator = const T*;
  using offset_type = int64_t;
  SimpleBuffer() = default;
  SimpleBuffer(RawBufferPtr holder, absl::Span<const T> data) : holder_(std::move(holder)), data_(data) {}
  static SimpleBuffer Create(std::vector<T>&& v, RawBufferFactory* = nullptr) { return Create(v.begin(), v.end()); }
  static SimpleBuffer Create(std::initializer_list<T> v, RawBufferFactory* = nullptr) { return Create(v.begin(), v.end()); }
  template <typename It> static SimpleBuffer Create(It b, It e, RawBufferFactory* = nullptr) {
    Builder r(std::distance(b, e));
    for (int64_t i = 0; b != e; ++b, ++i) r.Set(i, *b);
    return std::move(r).Build();
  }
  static SimpleBuffer CreateFull(int64_t n, const T& v, RawBufferFactory* = nullptr) {
    Builder r(n); r.SetNConst(0, n, v); return std::move(r).Build();
  }
  static SimpleBuffer CreateUninitialized(int64_t n, RawBufferFactory* = nullptr) { return Builder(n).Build(); }
  bool is_owner() const { return holder_ != nullptr; }
  absl::Span<const T> span() const { return data_; }
  int64_t size() const { return data_.size(); }
  bool empty() const { return data_.empty(); }
  const T& operator[](int64_t i) const { DCHECK_GE(i, 0); DCHECK_LT(i, size()); return data_[i]; }
  const T& front() const { return data_.front(); }
  const T& back() const { return data_.back(); }
  const_iterator begin() const { return data_.data(); }
  const_iterator end() const { return data_.data() + data_.size(); }
  const void* memory() const { return data_.data(); }
  size_t memory_usage() const { return sizeof(T) * size(); }
  SimpleBuffer ShallowCopy() const { return SimpleBuffer(nullptr, data_); }
  SimpleBuffer DeepCopy(RawBufferFactory* = nullptr) const { return Create(begin(), end()); }
  SimpleBuffer Slice(int64_t off) const& { return Slice(off, size() - off); }
  SimpleBuffer Slice(int64_t off, int64_t n) const& {
    DCHECK_GE(off, 0); DCHECK_GE(n, 0); DCHECK_LE(off + n, size());
    return SimpleBuffer(holder_, data_.subspan(off, n));
  }
  class Inserter {
   public:
    void Add(const T& v) { *p_++ = v; }
    void SkipN(int64_t n) { p_ += n; }
   private:
    friend class SimpleBuffer; explicit Inserter(T* p) : p_(p) {}
    T* p_;
  };
  class Builder {
   public:
    Builder() = default;
    explicit Builder(int64_t n, RawBufferFactory* = nullptr) : n_(n) {
      DCHECK_GE(n, 0);
      if (n > 0) {
        T* p = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T))));
        if constexpr (!std::is_trivially_default_constructible_v<T>) for (int64_t i = 0; i < n; ++i) new (p + i) T();
        // Not initialised, as in the original; a pattern makes a use visible.
        else std::memset(static_cast<void*>(p), std::is_same_v<T, bool> ? 0 : 0xA5, n * sizeof(T));
        data_ = p;
        holder_ = std::shared_ptr<const void>(p, [n](const void* q) {
          T* t = static_cast<T*>(const_cast<void*>(q));
          for (int64_t i = 0; i < n; ++i) t[i].~T();
          ::operator delete(t, std::align_val_t(alignof(T)));
        });
      }
    }
    Builder(Builder&& o) = default;
    Builder& operator=(Builder&& o) = default;
    Inserter GetInserter(int64_t off = 0) { return Inserter(data_ + off); }
    absl::Span<T> GetMutableSpan() { return absl::Span<T>(data_, n_); }
    void Set(int64_t i, const T& v) { DCHECK_GE(i, 0); DCHECK_LT(i, n_); data_[i] = v; }
    void Copy(int64_t from, int64_t to) { DCHECK_LT(from, n_); DCHECK_LT(to, n_); data_[to] = data_[from]; }
    template <typename F> void SetN(int64_t first, int64_t n, F f) { DCHECK_LE(first + n, n_); for (int64_t i = 0; i < n; ++i) data_[first + i] = f(); }
    void SetNConst(int64_t first, int64_t n, const T& v) { DCHECK_LE(first + n, n_); for (int64_t i = 0; i < n; ++i) data_[first + i] = v; }
    SimpleBuffer Build(Inserter ins) && { int64_t n = ins.p_ - data_; return std::move(*this).Build(n); }
    SimpleBuffer Build() && { return std::move(*this).Build(n_); }
    SimpleBuffer Build(int64_t n) && {
      DCHECK_LE(n, n_);
      return SimpleBuffer(std::move(holder_), absl::Span<const T>(data_, n));
    }
   private:
    RawBufferPtr holder_;
    T* data_ = nullptr;
    int64_t n_ = 0;
  };
  class ReshuffleBuilder {
   public:
    ReshuffleBuilder(int64_t n, const SimpleBuffer& v, const std::optional<T>& def, RawBufferFactory* = nullptr) : b_(n), v_(v) {
      if (def) b_.SetNConst(0, n, *def);
    }
    void CopyValue(int64_t i, int64_t old) { b_.Set(i, v_[old]); }
    void CopyValueToRange(int64_t from, int64_t to, int64_t old) { for (; from < to; ++from) b_.Set(from, v_[old]); }
    SimpleBuffer Build(int64_t n) && { return std::move(b_).Build(n); }
    SimpleBuffer Build() && { return std::move(b_).Build(); }
   private:
    Builder b_; SimpleBuffer v_;
  };
  friend bool operator==(const SimpleBuffer& a, const SimpleBuffer& b) { return a.data_ == b.data_; }
  friend bool operator!=(const SimpleBuffer& a, const SimpleBuffer& b) { return !(a == b); }
 private:
  RawBufferPtr holder_;
  absl::Span<const T> data_;
};
template <typename T> struct FingerprintHasherTraits<SimpleBuffer<T>> {
  void operator()(FingerprintHasher* h, const SimpleBuffer<T>& v) const { h->CombineSpan(v.span()); }
};
}
#endif
