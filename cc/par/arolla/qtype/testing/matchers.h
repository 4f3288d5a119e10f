#ifndef VERIF_AROLLA_MATCHERS_H_
#define VERIF_AROLLA_MATCHERS_H_
#include "arolla/qtype/typed_ref.h"
#include "gmock/gmock.h"
namespace arolla::testing {
template <typename T, typename M>
class QValueWithImpl {
 public:
  explicit QValueWithImpl(M m) : m_(std::move(m)) {}
  template <typename V> operator ::testing::Matcher<V>() const { return ::testing::Matcher<V>(new Impl<V>(m_)); }
 private:
  template <typename V> struct Impl : ::testing::MatcherInterface<V> {
    M m;
    explicit Impl(M mm) : m(std::move(mm)) {}
    bool MatchAndExplain(V v, ::testing::MatchResultListener* l) const override {
      if (v.GetType() != GetQType<T>()) { *l << "type " << std::string(v.GetType()->name()); return false; }
      return ::testing::ExplainMatchResult(::testing::SafeMatcherCast<const T&>(m), v.template UnsafeAs<T>(), l);
    }
    void DescribeTo(std::ostream* o) const override { *o << "qvalue"; }
  };
  M m_;
};
template <typename T, typename M> QValueWithImpl<T, M> QValueWith(M m) { return QValueWithImpl<T, M>(std::move(m)); }
}
#endif
