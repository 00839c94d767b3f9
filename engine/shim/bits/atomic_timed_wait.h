#ifndef _GLIBCXX_ATOMIC_TIMED_WAIT_H
#define _GLIBCXX_ATOMIC_TIMED_WAIT_H 1
#pragma GCC system_header
#include <bits/atomic_wait.h>
#include <bits/chrono.h>
namespace std _GLIBCXX_VISIBILITY(default) {
template <typename _Pred, typename _T>
bool __atomic_wait_address_until_bare(const __detail::__platform_wait_t*, _Pred __p, const _T&) noexcept { return __p(); }
template <typename _Pred, typename _T>
bool __atomic_wait_address_for_bare(const __detail::__platform_wait_t*, _Pred __p, const _T&) noexcept { return __p(); }
}
#endif
