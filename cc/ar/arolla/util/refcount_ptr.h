#ifndef VERIF_AR_REFCOUNT_PTR_H_
#define VERIF_AR_REFCOUNT_PTR_H_
#include <atomic>
#include <cstddef>
#include <memory>
#include <utility>
namespace arolla {
class RefcountedBase {
  mutable std::atomic<int32_t> n_ = 0;
  template <typename T> friend class RefcountPtr;
 public:
  RefcountedBase() = default;
  RefcountedBase(const RefcountedBase&) = delete;
  RefcountedBase& operator=(const RefcountedBase&) = delete;
};
template <typename T> class RefcountPtr {
 public:
  template <typename... A> static RefcountPtr Make(A&&... a) { return RefcountPtr(new T(std::forward<A>(a)...)); }
  static RefcountPtr Own(std::unique_ptr<T>&& p) { return RefcountPtr(p.release()); }
  static RefcountPtr NewRef(T* p) { return RefcountPtr(p); }
  RefcountPtr() = default;
  RefcountPtr(std::nullptr_t) {}
  RefcountPtr(const RefcountPtr& o) : RefcountPtr(o.p_) {}
  RefcountPtr(RefcountPtr&& o) : p_(std::exchange(o.p_, nullptr)) {}
  ~RefcountPtr() { Unref(); }
  RefcountPtr& operator=(std::nullptr_t) { reset(); return *this; }
  RefcountPtr& operator=(const RefcountPtr& o) { RefcountPtr t(o); swap(t); return *this; }
  RefcountPtr& operator=(RefcountPtr&& o) { if (this != &o) { RefcountPtr t(std::move(o)); swap(t); } return *this; }
  T* get() const { return p_; }
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  void reset() { RefcountPtr t; swap(t); }
  void swap(RefcountPtr& o) { std::swap(p_, o.p_); }
  friend bool operator==(const RefcountPtr& a, std::nullptr_t) { return a.p_ == nullptr; }
  friend bool operator!=(const RefcountPtr& a, std::nullptr_t) { return a.p_ != nullptr; }
  friend bool operator==(const RefcountPtr& a, const RefcountPtr& b) { return a.p_ == b.p_; }
  friend bool operator!=(const RefcountPtr& a, const RefcountPtr& b) { return a.p_ != b.p_; }
 private:
  explicit RefcountPtr(T* p) : p_(p) { if (p_) static_cast<const RefcountedBase*>(p_)->n_.fetch_add(1); }
  void Unref() { if (p_ && static_cast<const RefcountedBase*>(p_)->n_.fetch_sub(1) == 1) delete p_; p_ = nullptr; }
  T* p_ = nullptr;
};
}
#endif
