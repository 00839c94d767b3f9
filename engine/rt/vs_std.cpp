// Engine-only reference versions of the parts of libc and libstdc++ which are not in headers.
// Linked on demand; treated like user code (memory and race checks apply).
#include "../vs.h"
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <functional>
#include <future>
#include <cxxabi.h>

enum { K_EXC = 6 };

// ---- libc
extern "C" {
void* memchr(const void* p, int c, size_t n) {
  const unsigned char* s = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i);
  return nullptr;
}
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { char* p = d; while (*p) p++; while ((*p++ = *s++)) {} return d; }
int strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; }
  return 0;
}
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
void* vsrt_malloc(size_t) noexcept;
void vsrt_free(void*) noexcept;
void* calloc(size_t a, size_t b) {
  char* p = (char*)vsrt_malloc(a * b);
  if (p) for (size_t i = 0; i < a * b; i++) p[i] = 0;
  return p;
}
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; }
div_t div(int a, int b) { div_t r; r.quot = a / b; r.rem = a % b; return r; }
ldiv_t ldiv(long a, long b) { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
char* getenv(const char*) { return nullptr; }
int printf(const char*, ...) { return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
int puts(const char*) { return 0; }
int putchar(int c) { return c; }
int fputs(const char*, FILE*) { return 0; }
int fputc(int c, FILE*) { return c; }
size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; }
int fflush(FILE*) { return 0; }
int rand(void) { return vs_choice("rand", 4); }
static thread_local int vsrt_errno;
int* __errno_location() { return &vsrt_errno; }
char* strerror(int) { return (char*)"error"; }
}
FILE* stdout = nullptr;
FILE* stderr = nullptr;

// ---- std::call_once
namespace std {
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy(void) { __once_call(); }
}

// ---- std::list
namespace std::__detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  bool ex = x._M_next == &x, ey = y._M_next == &y;
  _List_node_base tx = x, ty = y;
  if (ey) x._M_next = x._M_prev = &x;
  else { x = ty; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
  if (ex) y._M_next = y._M_prev = &y;
  else { y = tx; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this;
  f->_M_prev->_M_next = l;
  this->_M_prev->_M_next = f;
  _List_node_base* t = this->_M_prev;
  this->_M_prev = l->_M_prev;
  l->_M_prev = f->_M_prev;
  f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do {
    _List_node_base* n = t->_M_next;
    t->_M_next = t->_M_prev;
    t->_M_prev = n;
    t = n;
  } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base* p) noexcept {
  _M_next = p;
  _M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _M_prev->_M_next = _M_next;
  _M_next->_M_prev = _M_prev;
}

// ---- hash tables
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static constexpr size_t p[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033};
  for (size_t x : p) if (x >= n) { _M_next_resize = (size_t)((double)x * (double)_M_max_load_factor); return x; }
  return n | 1;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins <= _M_next_resize) return {false, 0};
  size_t need = elt + ins > bkt ? elt + ins : bkt + 1;
  if (elt + ins <= bkt && _M_next_resize) { _M_next_resize = bkt; return {false, 0}; }
  return {true, _M_next_bkt(need > 2 * bkt ? need : 2 * bkt)};
}
}

// ---- search trees (kept unbalanced: same contents and order)
namespace std {
_GLIBCXX_PURE _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;   // the header
  if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right) x = x->_M_right;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* l = z == h._M_left ? _Rb_tree_increment(z) : h._M_left;
  _Rb_tree_node_base* r = nullptr;
  if (z == h._M_right) { r = z->_M_left; if (r) while (r->_M_right) r = r->_M_right; else r = z->_M_parent; }
  else r = h._M_right;
  auto put = [&](_Rb_tree_node_base* n) {   // n takes the place of z below its parent
    if (h._M_parent == z) h._M_parent = n;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = n;
    else z->_M_parent->_M_right = n;
    if (n) n->_M_parent = z->_M_parent;
  };
  if (!z->_M_left) put(z->_M_right);
  else if (!z->_M_right) put(z->_M_left);
  else {
    _Rb_tree_node_base* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      y->_M_parent->_M_left = y->_M_right;
      if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
    put(y);
  }
  if (!h._M_parent) { h._M_left = h._M_right = &h; }
  else { h._M_left = l; h._M_right = r; }
  return z;
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  size_t h = seed ^ 14695981039346656037ul;
  for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ul;
  return h;
}
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

// ---- exceptions with a message
static char* vsrt_dup(const char* s, size_t n) {
  char* p = (char*)vs_malloc(n + 1, K_EXC, 16);
  for (size_t i = 0; i < n; i++) p[i] = s[i];
  p[n] = 0;
  return p;
}
static char* vsrt_dup(const char* s) { return vsrt_dup(s, __builtin_strlen(s)); }
__cow_string::__cow_string() { _M_p = vsrt_dup(""); }
__cow_string::__cow_string(const std::string& s) { _M_p = vsrt_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = vsrt_dup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = vsrt_dup(o._M_p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
  if (this != &o) { vs_free((void*)_M_p, K_EXC, -1, 16); _M_p = vsrt_dup(o._M_p); }
  return *this;
}
__cow_string::~__cow_string() { vs_free((void*)_M_p, K_EXC, -1, 16); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = vsrt_dup(o._M_p); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = o; }

logic_error::logic_error(const std::string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return *(const char* const*)&_M_msg; }
runtime_error::runtime_error(const std::string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return *(const char* const*)&_M_msg; }
#define VS_EXC(T, B) \
  T::T(const std::string& s) : B(s) {} \
  T::T(const char* s) : B(s) {} \
  T::~T() noexcept {}
VS_EXC(domain_error, logic_error)
VS_EXC(invalid_argument, logic_error)
VS_EXC(length_error, logic_error)
VS_EXC(out_of_range, logic_error)
VS_EXC(range_error, runtime_error)
VS_EXC(overflow_error, runtime_error)
VS_EXC(underflow_error, runtime_error)
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
nested_exception::~nested_exception() noexcept {}
system_error::~system_error() noexcept {}

error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
struct vsrt_category final : error_category {
  const char* name() const noexcept override { return "generic"; }
  std::string message(int) const override { return "error"; }
};
template <typename T>
union vsrt_keep {
  T x;
  constexpr vsrt_keep() : x() {}
  ~vsrt_keep() {}
};
static constinit vsrt_keep<vsrt_category> vsrt_generic, vsrt_system;
inline namespace _V2 {
const error_category& generic_category() noexcept { return vsrt_generic.x; }
const error_category& system_category() noexcept { return vsrt_system.x; }
}

__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return logic_error::what(); }
static constinit vsrt_keep<vsrt_category> vsrt_future;
const error_category& future_category() noexcept { return vsrt_future.x; }
void __throw_future_error(int e) { throw future_error(make_error_code((future_errc)e)); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }

// ---- pmr
namespace pmr {
struct vsrt_chunk { vsrt_chunk* next; size_t size, align; };
monotonic_buffer_resource::~monotonic_buffer_resource() { release(); }
void monotonic_buffer_resource::_M_new_buffer(size_t bytes, size_t al) {
  if (al < alignof(std::max_align_t)) al = alignof(std::max_align_t);
  size_t n = bytes > _M_next_bufsiz ? bytes : _M_next_bufsiz;
  n = (n + al - 1) / al * al;
  size_t full = n + ((sizeof(vsrt_chunk) + al - 1) / al * al);
  char* p = (char*)_M_upstream->allocate(full, al);
  vsrt_chunk* c = (vsrt_chunk*)p;
  c->next = (vsrt_chunk*)_M_head;
  c->size = full;
  c->align = al;
  _M_head = (_Chunk*)c;
  _M_current_buf = p + (full - n);
  _M_avail = n;
  _M_next_bufsiz = _M_next_bufsiz * 3 / 2;
}
void monotonic_buffer_resource::_M_release_buffers() noexcept {
  vsrt_chunk* c = (vsrt_chunk*)_M_head;
  _M_head = nullptr;
  while (c) {
    vsrt_chunk* n = c->next;
    _M_upstream->deallocate(c, c->size, c->align);
    c = n;
  }
}
}

}
extern "C" {
time_t time(time_t* p) { if (p) *p = 1000; return 1000; }
clock_t clock(void) { return 1000; }

// ---- dynamic_cast (Itanium C++ ABI)
using namespace __cxxabiv1;
extern const char _ZTVN10__cxxabiv120__si_class_type_infoE[], _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
static int vs_ti_kind(const void* ti) {
  const char* v = *(const char* const*)ti;
  return v == _ZTVN10__cxxabiv120__si_class_type_infoE + 16 ? 1 : v == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 16 ? 2 : 0;
}
static const void* vsrt_up(const void* p, const std::type_info* ti, const std::type_info* dst, int& n, const void*& found) {
  // all public subobjects of type dst in the object p of type ti
  if (ti == dst) { if (!found || found != p) { found = p; n++; } return p; }
  if (auto* si = vs_ti_kind(ti) == 1 ? static_cast<const __si_class_type_info*>(ti) : nullptr) return vsrt_up(p, si->__base_type, dst, n, found);
  if (vs_ti_kind(ti) == 2) {
    auto* v = static_cast<const __vmi_class_type_info*>(ti);
    for (unsigned i = 0; i < v->__base_count; i++) {
      auto& b = v->__base_info[i];
      if (!(b.__offset_flags & 2)) continue;
      long off = b.__offset_flags >> 8;
      const char* q = (const char*)p;
      if (b.__offset_flags & 1) off = *(const long*)(*(const char* const*)p + off);
      vsrt_up(q + off, b.__base_type, dst, n, found);
    }
  }
  return found;
}
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void* __dynamic_cast(const void* sub, const __class_type_info*, const __class_type_info* dst, long) {
  const void* const* vt = *(const void* const* const*)sub;
  const void* whole = (const char*)sub + ((const long*)vt)[-2];
  const std::type_info* ti = (const std::type_info*)vt[-1];
  int n = 0;
  const void* found = nullptr;
  vsrt_up(whole, ti, dst, n, found);
  return n == 1 ? (void*)found : nullptr;
}
}
