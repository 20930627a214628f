#ifndef VERIF_SHIM_NO_DESTRUCTOR_H_
#define VERIF_SHIM_NO_DESTRUCTOR_H_
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... A,
            typename = std::enable_if_t<std::is_constructible_v<T, A...>>>
  explicit NoDestructor(A&&... a) { new (s_) T(std::forward<A>(a)...); }
  explicit NoDestructor(const T& t) { new (s_) T(t); }
  explicit NoDestructor(T&& t) { new (s_) T(std::move(t)); }
  NoDestructor(const NoDestructor&) = delete;
  NoDestructor& operator=(const NoDestructor&) = delete;
  T& operator*() { return *get(); }
  const T& operator*() const { return *get(); }
  T* operator->() { return get(); }
  const T* operator->() const { return get(); }
  T* get() { return std::launder(reinterpret_cast<T*>(s_)); }
  const T* get() const { return std::launder(reinterpret_cast<const T*>(s_)); }

 private:
  alignas(T) unsigned char s_[sizeof(T)];
};
}  // namespace absl
#endif
