// Engine-only stand-ins for the C++ support library: allocation, exceptions, std::pmr defaults.
#include "../vs.h"
#include <new>
#include <exception>
#include <typeinfo>
#include <memory_resource>
#include <thread>
#include <stdexcept>
#include <system_error>
#include <functional>

enum { KN = 1, KNA = 2, KAN = 3, KANA = 4, KM = 5, KEXC = 6, KEXIT = 7 };
static int g_alloc_faults;
extern "C" void vsrt_alloc_faults(int n) noexcept { g_alloc_faults = n; }
static bool fault() {
  if (g_alloc_faults > 0 && vs_choice("alloc_fault", 2)) { g_alloc_faults--; return true; }
  return false;
}
static void* alloc(size_t n, int kind, size_t al) {
  void* p = fault() ? nullptr : vs_malloc(n, kind, al);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return alloc(n, KN, 16); }
void* operator new[](size_t n) { return alloc(n, KNA, 16); }
void* operator new(size_t n, std::align_val_t a) { return alloc(n, KAN, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return alloc(n, KANA, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fault() ? nullptr : vs_malloc(n, KN, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fault() ? nullptr : vs_malloc(n, KNA, 16); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return fault() ? nullptr : vs_malloc(n, KAN, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return fault() ? nullptr : vs_malloc(n, KANA, (size_t)a); }
void operator delete(void* p) noexcept { vs_free(p, KN, -1, 16); }
void operator delete[](void* p) noexcept { vs_free(p, KNA, -1, 16); }
void operator delete(void* p, size_t n) noexcept { vs_free(p, KN, (int64_t)n, 16); }
void operator delete[](void* p, size_t n) noexcept { vs_free(p, KNA, (int64_t)n, 16); }
void operator delete(void* p, std::align_val_t a) noexcept { vs_free(p, KAN, -1, (size_t)a); }
void operator delete[](void* p, std::align_val_t a) noexcept { vs_free(p, KANA, -1, (size_t)a); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { vs_free(p, KAN, (int64_t)n, (size_t)a); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { vs_free(p, KANA, (int64_t)n, (size_t)a); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vs_free(p, KN, -1, 16); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vs_free(p, KNA, -1, 16); }

// ---- destructors of static and thread_local objects
struct vsrt_exit { void (*f)(void*); void* arg; vsrt_exit* next; };
static vsrt_exit* vsrt_exits;
static thread_local vsrt_exit* vsrt_tls_exits;
static void vsrt_at(vsrt_exit** l, void (*f)(void*), void* a) {
  vsrt_exit* e = (vsrt_exit*)vs_malloc(sizeof(vsrt_exit), KEXIT, 16);
  e->f = f; e->arg = a; e->next = *l;
  *l = e;
}
static void vsrt_run(vsrt_exit** l) {
  while (vsrt_exit* e = *l) {
    *l = e->next;
    void (*f)(void*) = e->f;
    void* a = e->arg;
    vs_free(e, KEXIT, -1, 16);
    f(a);
  }
}
extern "C" {
int __cxa_atexit(void (*f)(void*), void* a, void*) noexcept { vsrt_at(&vsrt_exits, f, a); return 0; }
int __cxa_thread_atexit(void (*f)(void*), void* a, void*) noexcept { vsrt_at(&vsrt_tls_exits, f, a); return 0; }
void vsrt_tls_run() { vsrt_run(&vsrt_tls_exits); }
void vsrt_run_exit() { vsrt_run(&vsrt_tls_exits); vsrt_run(&vsrt_exits); }
void* vsrt_malloc(size_t n) noexcept { return fault() ? nullptr : vs_malloc(n, KM, 16); }
void vsrt_free(void* p) noexcept { vs_free(p, KM, -1, 16); }

struct vsrt_hdr {
  const std::type_info* ti;   // first: read by the engine when unwinding
  void (*dtor)(void*);
  long ref;
  int handlers;
  vsrt_hdr* next;
  void* obj;
  vsrt_hdr* primary;
  long pad;
};
static_assert(sizeof(vsrt_hdr) == 64);
static thread_local vsrt_hdr* vsrt_caught = nullptr;
static thread_local int vsrt_uncaught = 0;

void* __cxa_allocate_exception(size_t n) noexcept {
  vsrt_hdr* h = (vsrt_hdr*)vs_malloc(sizeof(vsrt_hdr) + n, KEXC, 16);
  h->ti = nullptr; h->dtor = nullptr; h->ref = 0; h->handlers = 0; h->next = nullptr; h->obj = h + 1; h->primary = nullptr;
  return h + 1;
}
void __cxa_free_exception(void* o) noexcept { vs_free((vsrt_hdr*)o - 1, KEXC, -1, 16); }
static void vsrt_unref(vsrt_hdr* h) {
  vs_release(&h->ref);
  vs_acquire(&h->ref);
  if (--h->ref > 0) return;
  if (h->primary) {
    vsrt_hdr* p = h->primary;
    vs_free(h, KEXC, -1, 16);
    vsrt_unref(p);
    return;
  }
  if (h->dtor) h->dtor(h->obj);
  vs_free(h, KEXC, -1, 16);
}
void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) {
  vsrt_hdr* h = (vsrt_hdr*)o - 1;
  h->ti = ti; h->dtor = d; h->ref = 1;
  vsrt_uncaught++;
  vs_raise(h);
  __builtin_unreachable();
}
void* __cxa_begin_catch(void* x) noexcept {
  vsrt_hdr* h = (vsrt_hdr*)x;
  int c = h->handlers;
  if (c < 0) c = -c + 1; else c++;
  h->handlers = c;
  vsrt_uncaught--;
  if (h != vsrt_caught) { h->next = vsrt_caught; vsrt_caught = h; }
  return h->obj;
}
void* __cxa_get_exception_ptr(void* x) noexcept { return ((vsrt_hdr*)x)->obj; }
void __cxa_end_catch() {
  vsrt_hdr* h = vsrt_caught;
  if (!h) return;
  int c = h->handlers;
  if (c < 0) {
    if (++c == 0) vsrt_caught = h->next;
  } else if (--c == 0) {
    vsrt_caught = h->next;
    vsrt_unref(h);
    return;
  }
  h->handlers = c;
}
void __cxa_rethrow() {
  vsrt_hdr* h = vsrt_caught;
  if (!h) std::terminate();
  h->handlers = -h->handlers;
  vsrt_uncaught++;
  vs_raise(h);
  __builtin_unreachable();
}
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
}

namespace __cxxabiv1 {
extern "C" __cxa_refcounted_exception* __cxa_init_primary_exception(void* o, std::type_info* ti, void (*d)(void*)) noexcept {
  vsrt_hdr* h = (vsrt_hdr*)o - 1;
  h->ti = ti; h->dtor = d; h->ref = 0;
  return (__cxa_refcounted_exception*)h;
}
}

// exception_ptr keeps the address of the exception object
namespace std {
int uncaught_exceptions() noexcept { return vsrt_uncaught; }
bool uncaught_exception() noexcept { return vsrt_uncaught != 0; }
namespace __exception_ptr {
void exception_ptr::_M_addref() noexcept {
  if (_M_exception_object) ((vsrt_hdr*)_M_exception_object - 1)->ref++;
}
void exception_ptr::_M_release() noexcept {
  if (_M_exception_object) {
    vsrt_hdr* h = (vsrt_hdr*)_M_exception_object - 1;
    _M_exception_object = nullptr;
    vsrt_unref(h);
  }
}
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { _M_addref(); }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
std::exception_ptr current_exception() noexcept {
  vsrt_hdr* h = vsrt_caught;
  if (!h) return std::exception_ptr();
  if (h->primary) h = h->primary;
  void* o = h->obj;
  return *reinterpret_cast<std::exception_ptr*>(&o);   // copies: takes a reference
}
void rethrow_exception(std::exception_ptr ep) {
  void* o = *reinterpret_cast<void**>(&ep);
  vsrt_hdr* p = (vsrt_hdr*)o - 1;
  p->ref++;
  vsrt_hdr* d = (vsrt_hdr*)vs_malloc(sizeof(vsrt_hdr), KEXC, 16);
  d->ti = p->ti; d->dtor = nullptr; d->ref = 1; d->handlers = 0; d->next = nullptr; d->obj = p->obj; d->primary = p;
  vsrt_uncaught++;
  vs_raise(d);
  __builtin_unreachable();
}

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }

thread::_State::~_State() = default;

namespace pmr {
memory_resource::~memory_resource() {}
struct vsrt_new_delete final : memory_resource {
  void* do_allocate(size_t n, size_t a) override { return ::operator new(n, (std::align_val_t)a); }
  void do_deallocate(void* p, size_t n, size_t a) override { ::operator delete(p, n, (std::align_val_t)a); }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
struct vsrt_null final : memory_resource {
  void* do_allocate(size_t, size_t) override { throw bad_alloc(); }
  void do_deallocate(void*, size_t, size_t) override {}
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
template <typename T>
union vsrt_static {          // constant initialised, never destroyed
  T x;
  constexpr vsrt_static() : x() {}
  ~vsrt_static() {}
};
static constinit vsrt_static<vsrt_new_delete> vsrt_nd;
static constinit vsrt_static<vsrt_null> vsrt_nl;
static memory_resource* vsrt_default;
memory_resource* new_delete_resource() noexcept { return &vsrt_nd.x; }
memory_resource* null_memory_resource() noexcept { return &vsrt_nl.x; }
memory_resource* get_default_resource() noexcept { return vsrt_default ? vsrt_default : new_delete_resource(); }
memory_resource* set_default_resource(memory_resource* r) noexcept {
  memory_resource* o = get_default_resource();
  vsrt_default = r;
  return o;
}
}
}
