#ifndef VERIF_AR_STRINGS_BUFFER_H_
#define VERIF_AR_STRINGS_BUFFER_H_
#include <string>
#include "arolla/memory/simple_buffer.h"
#include "arolla/util/iterator.h"
#include "arolla/util/view_types.h"
namespace arolla {
class StringsBuffer {
 public:
  using value_type = absl::string_view; using size_type = int64_t; using difference_type = int64_t;
  using offset_type = int64_t;
  using const_iterator = ConstArrayIterator<StringsBuffer>;
  struct Offsets { offset_type start, end; };
  StringsBuffer() = default;
  StringsBuffer(SimpleBuffer<Offsets> o, SimpleBuffer<char> c, offset_type base = 0) : offsets_(std::move(o)), chars_(std::move(c)), base_(base) {}
  template <typename It> static StringsBuffer Create(It b, It e, RawBufferFactory* = nullptr) {
    Builder r(std::distance(b, e));
    for (int64_t i = 0; b != e; ++b, ++i) r.Set(i, absl::string_view(*b));
    return std::move(r).Build();
  }
  static StringsBuffer Create(std::initializer_list<absl::string_view> v, RawBufferFactory* = nullptr) { return Create(v.begin(), v.end()); }
  bool empty() const { return offsets_.empty(); }
  bool is_owner() const { return offsets_.is_owner() && chars_.is_owner(); }
  int64_t size() const { return offsets_.size(); }
  size_t memory_usage() const { return offsets_.memory_usage() + chars_.memory_usage(); }
  absl::string_view operator[](int64_t i) const {
    auto o = offsets_[i];
    DCHECK_LE(0, o.start - base_); DCHECK_LE(o.end - base_, chars_.size());
    return absl::string_view(chars_.span().data() + o.start - base_, o.end - o.start);
  }
  const_iterator begin() const { return const_iterator{this, 0}; }
  const_iterator end() const { return const_iterator{this, size()}; }
  absl::string_view front() const { return (*this)[0]; }
  absl::string_view back() const { return (*this)[size() - 1]; }
  StringsBuffer ShallowCopy() const { return StringsBuffer(offsets_.ShallowCopy(), chars_.ShallowCopy(), base_); }
  StringsBuffer DeepCopy(RawBufferFactory* = nullptr) const { return Create(begin(), end()); }
  StringsBuffer Slice(int64_t off) const { return Slice(off, size() - off); }
  StringsBuffer Slice(int64_t off, int64_t n) const { return StringsBuffer(offsets_.Slice(off, n), chars_, base_); }
  const SimpleBuffer<Offsets>& offsets() const { return offsets_; }
  const SimpleBuffer<char>& characters() const { return chars_; }
  offset_type base_offset() const { return base_; }
  class Builder;
  class Inserter {
   public:
    void Add(absl::string_view v);
    void SkipN(int64_t n) { i_ += n; }
   private:
    friend class StringsBuffer; friend class Builder;
    Inserter(Builder* b, int64_t i) : b_(b), i_(i) {}
    Builder* b_; int64_t i_;
  };
  class Builder {
   public:
    Builder() = default;
    explicit Builder(int64_t n, RawBufferFactory* = nullptr) : o_(n) { for (auto& o : o_.GetMutableSpan()) o = {0, 0}; }
    Builder(int64_t n, int64_t, RawBufferFactory* = nullptr) : Builder(n) {}
    Inserter GetInserter(int64_t off = 0) { return Inserter(this, off); }
    void Set(int64_t i, absl::string_view v) { o_.Set(i, {static_cast<int64_t>(c_.size()), static_cast<int64_t>(c_.size() + v.size())}); c_.append(v.data(), v.size()); }
    void Copy(int64_t from, int64_t to) { o_.Copy(from, to); }
    template <typename F> void SetN(int64_t first, int64_t n, F f) { for (int64_t i = 0; i < n; ++i) Set(first + i, f()); }
    void SetNConst(int64_t first, int64_t n, absl::string_view v) { for (int64_t i = 0; i < n; ++i) Set(first + i, v); }
    StringsBuffer Build(Inserter ins) && { return std::move(*this).Build(ins.i_); }
    StringsBuffer Build(int64_t n) && { return StringsBuffer(std::move(o_).Build(n), SimpleBuffer<char>::Create(c_.begin(), c_.end())); }
    StringsBuffer Build() && { return StringsBuffer(std::move(o_).Build(), SimpleBuffer<char>::Create(c_.begin(), c_.end())); }
   private:
    SimpleBuffer<Offsets>::Builder o_;
    std::string c_;
  };
  class ReshuffleBuilder;
  friend bool operator==(const StringsBuffer& a, const StringsBuffer& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
  friend bool operator!=(const StringsBuffer& a, const StringsBuffer& b) { return !(a == b); }
 private:
  SimpleBuffer<Offsets> offsets_;
  SimpleBuffer<char> chars_;
  offset_type base_ = 0;
};
class StringsBuffer::ReshuffleBuilder {
 public:
  ReshuffleBuilder(int64_t n, const StringsBuffer& v, const std::optional<absl::string_view>& def, RawBufferFactory* = nullptr) : b_(n), v_(v) {
    if (def) b_.SetNConst(0, n, *def);
  }
  void CopyValue(int64_t i, int64_t old) { b_.Set(i, v_[old]); }
  void CopyValueToRange(int64_t from, int64_t to, int64_t old) { for (; from < to; ++from) b_.Set(from, v_[old]); }
  StringsBuffer Build(int64_t n) && { return std::move(b_).Build(n); }
  StringsBuffer Build() && { return std::move(b_).Build(); }
 private:
  Builder b_; StringsBuffer v_;
};
inline void StringsBuffer::Inserter::Add(absl::string_view v) { b_->Set(i_++, v); }
template <> struct FingerprintHasherTraits<StringsBuffer> {
  void operator()(FingerprintHasher* h, const StringsBuffer& v) const { h->Combine(v.size()); for (int64_t i = 0; i < v.size(); ++i) h->Combine(v[i]); }
};
}
#endif
