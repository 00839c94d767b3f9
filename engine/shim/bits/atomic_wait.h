// Stand-in for libstdc++'s <bits/atomic_wait.h>: same interface, blocking modelled by the verification runtime
// (the value is compared and the thread enqueued in one step; spurious returns are absorbed by the callers' loops).
#ifndef _GLIBCXX_ATOMIC_WAIT_H
#define _GLIBCXX_ATOMIC_WAIT_H 1
#pragma GCC system_header
#include <bits/c++config.h>
#include <bits/functional_hash.h>
#include <bits/gthr.h>
#include <ext/numeric_traits.h>
#define __cpp_lib_atomic_wait 201907L
extern "C" void vsrt_futex_wait(const void* addr, const void* old, unsigned long size) noexcept;
extern "C" void vsrt_futex_wake(const void* addr, int all) noexcept;
namespace std _GLIBCXX_VISIBILITY(default) {
_GLIBCXX_BEGIN_NAMESPACE_VERSION
namespace __detail {
using __platform_wait_t = int;
inline constexpr size_t __platform_wait_alignment = 4;
inline void __thread_relax() noexcept {}
inline void __thread_yield() noexcept {}
struct __default_spin_policy { bool operator()() const noexcept { return false; } };
template <typename _Pred, typename _Spin = __default_spin_policy>
bool __atomic_spin(_Pred& __pred, _Spin = _Spin{}) noexcept { return __pred(); }
}  // namespace __detail
template <typename _Tp, typename _ValFn>
void __atomic_wait_address_v(const _Tp* __addr, _Tp __old, _ValFn __vfn) noexcept {
  for (;;) {
    _Tp __v = __vfn();
    if (__builtin_memcmp(&__v, &__old, sizeof(_Tp)) != 0) return;
    vsrt_futex_wait(__addr, &__old, sizeof(_Tp));
  }
}
template <typename _Tp, typename _Pred>
void __atomic_wait_address(const _Tp* __addr, _Pred __pred) noexcept {
  for (;;) {
    _Tp __v;
    __atomic_load(__addr, &__v, __ATOMIC_RELAXED);
    if (__pred()) return;
    vsrt_futex_wait(__addr, &__v, sizeof(_Tp));
  }
}
template <typename _Pred>
void __atomic_wait_address_bare(const __detail::__platform_wait_t* __addr, _Pred __pred) noexcept {
  std::__atomic_wait_address(__addr, __pred);
}
template <typename _Tp>
void __atomic_notify_address(const _Tp* __addr, bool __all) noexcept { vsrt_futex_wake((const void*)__addr, __all); }
inline void __atomic_notify_address_bare(const __detail::__platform_wait_t* __addr, bool __all) noexcept {
  vsrt_futex_wake((const void*)__addr, __all);
}
_GLIBCXX_END_NAMESPACE_VERSION
}  // namespace std
#endif
