#pragma once
#include <new>
#include <initializer_list>
#include <utility>
namespace absl {
template <typename T> class NoDestructor {
 public:
  template <typename... A> explicit NoDestructor(A&&... a) { new (&s_) T(std::forward<A>(a)...); }
  explicit NoDestructor(const T& x) { new (&s_) T(x); }
  explicit NoDestructor(T&& x) { new (&s_) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  const T& operator*() const { return *get(); }
  const T* operator->() const { return get(); }
  T* get() { return reinterpret_cast<T*>(&s_); }
  const T* get() const { return reinterpret_cast<const T*>(&s_); }
 private:
  alignas(T) unsigned char s_[sizeof(T)];
};
}
