#ifndef VERIF_AR_VOID_BUFFER_H_
#define VERIF_AR_VOID_BUFFER_H_
#include <optional>
#include "arolla/memory/simple_buffer.h"
#include "arolla/util/iterator.h"
#include "arolla/util/unit.h"
namespace arolla {
class VoidBuffer {
 public:
  using value_type = Unit; using size_type = int64_t; using difference_type = int64_t; using const_iterator = ConstArrayIterator<VoidBuffer>;
  using offset_type = int64_t;
  explicit VoidBuffer(int64_t n = 0) : n_(n) {}
  static VoidBuffer CreateUninitialized(int64_t n, RawBufferFactory* = nullptr) { return VoidBuffer(n); }
  template <typename It> static VoidBuffer Create(It b, It e, RawBufferFactory* = nullptr) { return VoidBuffer(std::distance(b, e)); }
  static VoidBuffer CreateFull(int64_t n, Unit, RawBufferFactory* = nullptr) { return VoidBuffer(n); }
  bool is_owner() const { return true; }
  bool empty() const { return n_ == 0; }
  int64_t size() const { return n_; }
  size_t memory_usage() const { return 0; }
  Unit operator[](int64_t i) const { DCHECK_GE(i, 0); DCHECK_LT(i, n_); return {}; }
  const_iterator begin() const { return {this, 0}; }
  const_iterator end() const { return {this, n_}; }
  VoidBuffer ShallowCopy() const { return *this; }
  VoidBuffer DeepCopy(RawBufferFactory* = nullptr) const { return *this; }
  VoidBuffer Slice(int64_t off) const { return VoidBuffer(n_ - off); }
  VoidBuffer Slice(int64_t off, int64_t n) const { DCHECK_LE(off + n, n_); return VoidBuffer(n); }
  class Inserter { public: void Add(Unit) { ++n_; } void SkipN(int64_t k) { n_ += k; } private: friend class VoidBuffer; int64_t n_ = 0; };
  class Builder {
   public:
    Builder() = default;
    explicit Builder(int64_t n, RawBufferFactory* = nullptr) : n_(n) {}
    Inserter GetInserter(int64_t off = 0) { Inserter i; i.SkipN(off); return i; }
    void Set(int64_t i, Unit) { DCHECK_LT(i, n_); }
    void Copy(int64_t, int64_t) {}
    template <typename F> void SetN(int64_t, int64_t, F) {}
    void SetNConst(int64_t, int64_t, Unit) {}
    VoidBuffer Build(int64_t n) && { return VoidBuffer(n); }
    VoidBuffer Build() && { return VoidBuffer(n_); }
   private:
    int64_t n_ = 0;
  };
  class ReshuffleBuilder {
   public:
    ReshuffleBuilder(int64_t n, const VoidBuffer&, const std::optional<Unit>&, RawBufferFactory* = nullptr) : n_(n) {}
    void CopyValue(int64_t, int64_t) {}
    void CopyValueToRange(int64_t, int64_t, int64_t) {}
    VoidBuffer Build(int64_t n) && { return VoidBuffer(n); }
    VoidBuffer Build() && { return VoidBuffer(n_); }
   private:
    int64_t n_;
  };
  friend bool operator==(const VoidBuffer& a, const VoidBuffer& b) { return a.n_ == b.n_; }
 private:
  int64_t n_;
};
template <> struct FingerprintHasherTraits<VoidBuffer> { void operator()(FingerprintHasher* h, const VoidBuffer& v) const { h->Combine(v.size()); } };
}
#endif
