#ifndef VERIF_AR_ITERATOR_H_
#define VERIF_AR_ITERATOR_H_
#include <cstddef>
#include <iterator>
namespace arolla {
template <typename A> class ConstArrayIterator {
 public:
  using iterator_category = std::random_access_iterator_tag;
  using value_type = typename A::value_type;
  using pointer = const value_type*;
  using reference = decltype(std::declval<const A>()[typename A::size_type{0}]);
  using difference_type = typename A::difference_type;
  using size_type = typename A::size_type;
  ConstArrayIterator() : i_(0), a_(nullptr) {}
  ConstArrayIterator(const A* a, size_type i) : i_(i), a_(a) {}
  reference operator*() const { return (*a_)[i_]; }
  reference operator[](size_type n) const { return (*a_)[i_ + n]; }
  ConstArrayIterator& operator+=(difference_type n) { i_ += n; return *this; }
  ConstArrayIterator& operator-=(difference_type n) { i_ -= n; return *this; }
  ConstArrayIterator& operator++() { ++i_; return *this; }
  ConstArrayIterator& operator--() { --i_; return *this; }
  ConstArrayIterator operator++(int) { auto t = *this; ++i_; return t; }
  ConstArrayIterator operator--(int) { auto t = *this; --i_; return t; }
  friend ConstArrayIterator operator+(ConstArrayIterator x, difference_type n) { return x += n; }
  friend ConstArrayIterator operator+(difference_type n, ConstArrayIterator x) { return x += n; }
  friend ConstArrayIterator operator-(ConstArrayIterator x, difference_type n) { return x -= n; }
  friend difference_type operator-(const ConstArrayIterator& x, const ConstArrayIterator& y) { return x.i_ - y.i_; }
  friend bool operator==(const ConstArrayIterator& x, const ConstArrayIterator& y) { return x.i_ == y.i_; }
  friend bool operator!=(const ConstArrayIterator& x, const ConstArrayIterator& y) { return x.i_ != y.i_; }
  friend bool operator<(const ConstArrayIterator& x, const ConstArrayIterator& y) { return x.i_ < y.i_; }
  friend bool operator<=(const ConstArrayIterator& x, const ConstArrayIterator& y) { return x.i_ <= y.i_; }
  friend bool operator>(const ConstArrayIterator& x, const ConstArrayIterator& y) { return x.i_ > y.i_; }
  friend bool operator>=(const ConstArrayIterator& x, const ConstArrayIterator& y) { return x.i_ >= y.i_; }
 private:
  size_type i_;
  const A* a_;
};
}
#endif
