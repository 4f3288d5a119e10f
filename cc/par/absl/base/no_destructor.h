// Stand-in for a header missing from the installed Abseil.
#ifndef VERIF_ABSL_NO_DESTRUCTOR_H_
#define VERIF_ABSL_NO_DESTRUCTOR_H_
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... A, typename = std::enable_if_t<std::is_constructible_v<T, A&&...>>>
  explicit NoDestructor(A&&... a) { new (buf_) T(std::forward<A>(a)...); }
  explicit NoDestructor(const T& x) { new (buf_) T(x); }
  explicit NoDestructor(T&& x) { new (buf_) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  NoDestructor& operator=(const NoDestructor&) = delete;
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  T* get() { return reinterpret_cast<T*>(buf_); }
  const T& operator*() const { return *get(); }
  const T* operator->() const { return get(); }
  const T* get() const { return reinterpret_cast<const T*>(buf_); }
 private:
  alignas(T) unsigned char buf_[sizeof(T)];
};
template <typename T> NoDestructor(T) -> NoDestructor<T>;
}  // namespace absl
#endif
