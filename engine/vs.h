// Harness interface of the symbolic executor (also implemented natively for replay).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t vs_sym(const char* name, int bits) noexcept;              // arbitrary value of 'bits' bits
int64_t vs_range(const char* name, int64_t lo, int64_t hi) noexcept; // arbitrary value in [lo, hi]
int vs_choice(const char* name, int n) noexcept;                   // structural choice 0..n-1 (explored separately)
uint64_t vs_concrete(uint64_t v) noexcept;                         // split on the value
void vs_assume(int c) noexcept;
void vs_assert(int c, const char* msg) noexcept;
void vs_reach(const char* what) noexcept;                          // reachability witness
void vs_log(uint64_t v) noexcept;                                  // compared between engine and native runs
void vs_expect_terminate(void) noexcept;                           // from now on std::terminate ends the run successfully
void vs_end(void) noexcept;                                        // ends the run successfully
void vs_allow_blocked(void) noexcept;                              // threads may stay blocked at the end
void vs_allow_leaks(void) noexcept;
uint64_t vs_heap_live(void) noexcept;                              // live heap blocks allocated by the harness run
int vs_self(void) noexcept;
void vs_yield(void) noexcept;                                      // explicit scheduling point
void vs_point(const volatile void* addr) noexcept;
void vs_touch(const volatile void* addr) noexcept;
void vs_await(const int* addr, int ne, int val) noexcept;
int vs_spawn(void (*f)(void*), void* arg) noexcept;
void vs_acquire(const volatile void* a) noexcept;
void vs_release(const volatile void* a) noexcept;
void* vs_malloc(size_t n, int kind, size_t align) noexcept;
void vs_free(void* p, int kind, int64_t size, size_t align) noexcept;
void vs_raise(void* hdr);
int vs_valid_range(const void* p, uint64_t len) noexcept;          // 1 if [p, p+len) lies inside one live object
uint64_t vs_block_id(const void* p) noexcept;                      // identity of the live object p points into (0 none)
// budgets for injected faults
void vsrt_alloc_faults(int n) noexcept;
void vsrt_thread_faults(int n) noexcept;
void vsrt_spurious_wakes(int n) noexcept;
void vsrt_weak_cas_failures(int n) noexcept;
// ghost cells: race-free, no scheduling point
int64_t vsg_load(const int64_t* p) noexcept;
void vsg_store(int64_t* p, int64_t v) noexcept;
int64_t vsg_add(int64_t* p, int64_t v) noexcept;
// wait (blocking) until a ghost int becomes non zero
void vsg_await(const int* p) noexcept;
void vsg_signal(int* p) noexcept;
}
struct ghost {
  int64_t v = 0;
  operator int64_t() const { return vsg_load(&v); }
  ghost& operator=(int64_t x) { vsg_store(&v, x); return *this; }
  int64_t operator++() { return vsg_add(&v, 1) + 1; }
  int64_t operator--() { return vsg_add(&v, -1) - 1; }
  int64_t operator+=(int64_t x) { return vsg_add(&v, x) + x; }
  int64_t operator++(int) { return vsg_add(&v, 1); }
};
#define VS_STR2(x) #x
#define VS_STR(x) VS_STR2(x)
#define VS_ASSERT(c) vs_assert((c) ? 1 : 0, #c " @" VS_STR(__LINE__))
#define VS_ASSERTM(c, m) vs_assert((c) ? 1 : 0, m)
#define VS_ENTRY(name) extern "C" void vs_main_##name()
