// Synchronisation primitives as seen by the code under test; used by the engine and by native replays.
#include "../vs.h"
namespace std { void terminate() noexcept; void __throw_system_error(int); }
typedef unsigned long ul;
static int vsrt_g_thread_faults, vsrt_g_spurious;
static int vsrt_g_done[32];


extern "C" {
void vsrt_thread_faults(int n) noexcept { vsrt_g_thread_faults = n; }
void vsrt_spurious_wakes(int n) noexcept { vsrt_g_spurious = n; }

// ---- mutex (layout of pthread_mutex_t): locked, depth, owner, -, kind (1: recursive)
struct vsrt_mutex { int locked, depth, owner, users, kind; };
int vsrt_mutex_lock(vsrt_mutex* m) noexcept {
  if (m->kind == 1 && m->owner == vs_self() + 1) { m->depth++; return 0; }
  vs_await(&m->locked, 0, 0);
  m->locked = 1;
  if (m->kind == 1) m->owner = vs_self() + 1;
  vs_acquire(m);
  return 0;
}
int vsrt_mutex_trylock(vsrt_mutex* m) noexcept {
  if (m->kind == 1 && m->owner == vs_self() + 1) { m->depth++; return 0; }
  vs_point(m);
  if (m->locked) return 16;
  m->locked = 1;
  if (m->kind == 1) m->owner = vs_self() + 1;
  vs_acquire(m);
  return 0;
}
int vsrt_mutex_unlock(vsrt_mutex* m) noexcept {
  vs_assert(m->locked == 1, "unlock of a mutex which is not locked");
  if (m->kind == 1 && m->depth) { m->depth--; return 0; }
  if (m->kind == 1) m->owner = 0;
  vs_touch(m);
  vs_release(m);
  m->locked = 0;
  return 0;
}
// a timed operation may fail at any moment as long as the lock is taken; the time it then sees once is late
static thread_local int vsrt_late;
long vsrt_now() noexcept {
  if (vsrt_late) { vsrt_late = 0; return 4000000000000000000; }
  return 1000000000;
}
int vsrt_mutex_timedlock(vsrt_mutex* m) noexcept {
  int r = vsrt_mutex_trylock(m);
  if (r) { vs_yield(); r = vsrt_mutex_trylock(m); }
  if (r) { vsrt_late = 1; return 110; }
  return 0;
}
int vsrt_mutex_init(vsrt_mutex* m, const int* attr) noexcept { m->locked = m->depth = m->owner = m->users = 0; m->kind = attr ? *attr : 0; return 0; }
int vsrt_mutex_destroy(vsrt_mutex* m) noexcept { vs_assert(m->locked == 0, "locked mutex destroyed"); return 0; }
int vsrt_attr_init(int* a) noexcept { *a = 0; return 0; }
int vsrt_attr_type(int* a, int k) noexcept { *a = k; return 0; }
int vsrt_attr_destroy(int*) noexcept { return 0; }
int vsrt_sleep() noexcept { vs_yield(); return 0; }

// ---- shared mutex: -1 written, n > 0 readers
int vsrt_rw_rdlock(int* l) noexcept { vs_await(l, 1, -1); ++*l; vs_acquire(l); return 0; }
int vsrt_rw_wrlock(int* l) noexcept { vs_await(l, 0, 0); *l = -1; vs_acquire(l); return 0; }
int vsrt_rw_tryrdlock(int* l) noexcept { vs_point(l); if (*l < 0) return 16; ++*l; vs_acquire(l); return 0; }
int vsrt_rw_trywrlock(int* l) noexcept { vs_point(l); if (*l) return 16; *l = -1; vs_acquire(l); return 0; }
int vsrt_rw_timedrdlock(int* l) noexcept { int r = vsrt_rw_tryrdlock(l); if (r) { vs_yield(); r = vsrt_rw_tryrdlock(l); } if (r) { vsrt_late = 1; return 110; } return 0; }
int vsrt_rw_timedwrlock(int* l) noexcept { int r = vsrt_rw_trywrlock(l); if (r) { vs_yield(); r = vsrt_rw_trywrlock(l); } if (r) { vsrt_late = 1; return 110; } return 0; }
int vsrt_rw_unlock(int* l) noexcept {
  vs_assert(*l != 0, "unlock of a shared mutex which is not locked");
  vs_touch(l);
  vs_release(l);
  if (*l < 0) *l = 0; else --*l;
  return 0;
}
int vsrt_rw_init(int* l) noexcept { *l = 0; return 0; }

// ---- once: 0 not run, 1 running, 2 done
int vsrt_once(int* c, void (*f)()) {
  vs_await(c, 1, 1);
  vs_acquire(c);
  if (*c == 2) return 0;
  *c = 1;
  try { f(); } catch (...) { vs_release(c); *c = 0; throw; }
  vs_touch(c);
  vs_release(c);
  *c = 2;
  return 0;
}

// ---- waiting lists
struct vsrt_node { int sig; const void* key; vsrt_node* next; };
struct vsrt_list { vsrt_node* head; };
struct vsrt_ulock { vsrt_mutex* m; bool owns; };

static void vsrt_enlist(vsrt_list* l, vsrt_node* n) {
  vsrt_node** p = &l->head;
  while (*p) p = &(*p)->next;
  *p = n;
}
static void vsrt_wake(vsrt_list* l, const void* key, int all, const char* what) {
  int n = 0;
  for (vsrt_node* x = l->head; x; x = x->next) n += x->key == key;
  if (!n) return;
  int pick = all ? 0 : vs_choice(what, n), i = 0;
  vsrt_node** p = &l->head;
  while (*p) {
    vsrt_node* x = *p;
    if (x->key == key && (all || i == pick)) { *p = x->next; x->sig = 1; }
    else p = &x->next;
    if (x->key == key) i++;
  }
}
// ---- condition variable
void vsrt_cv_ctor(void* cv) noexcept { ((vsrt_list*)cv)->head = nullptr; }
void vsrt_cv_dtor(void* cv) noexcept {
  vs_assert(((vsrt_list*)cv)->head == nullptr, "condition variable destroyed with waiting threads");
}
void vsrt_cv_wait(void* cv, vsrt_ulock* lk) noexcept {
  vsrt_node n{0, nullptr, nullptr};
  vs_point(cv);
  if (vsrt_g_spurious > 0 && vs_choice("spurious_wake", 2)) { vsrt_g_spurious--; n.sig = 1; }
  else vsrt_enlist((vsrt_list*)cv, &n);
  vsrt_mutex_unlock(lk->m);
  vs_await(&n.sig, 1, 0);
  vsrt_mutex_lock(lk->m);
}
// waits with a time limit: wakes at any later moment, by its signal if it came in time
int vsrt_cv_timedwait(void* cv, vsrt_mutex* m) noexcept {
  vsrt_node n{0, nullptr, nullptr};
  vs_point(cv);
  vsrt_enlist((vsrt_list*)cv, &n);
  vsrt_mutex_unlock(m);
  vs_yield();
  int sig = n.sig;
  if (!sig) {
    vsrt_node** p = &((vsrt_list*)cv)->head;
    while (*p != &n) p = &(*p)->next;
    *p = n.next;
  }
  vsrt_mutex_lock(m);
  if (sig) return 0;
  vsrt_late = 1;
  return 110;
}
int vsrt_cv_pwait(void* cv, vsrt_mutex* m) noexcept { vsrt_ulock l{m, true}; vsrt_cv_wait(cv, &l); return 0; }
int vsrt_cv_pone(void* cv) noexcept;
int vsrt_cv_pall(void* cv) noexcept;
int vsrt_cv_pinit(void* cv) noexcept { vsrt_cv_ctor(cv); return 0; }
int vsrt_cv_pdestroy(void* cv) noexcept { vsrt_cv_dtor(cv); return 0; }
void vsrt_cv_notify_one(void* cv) noexcept { vs_point(cv); vsrt_wake((vsrt_list*)cv, nullptr, 0, "cv_wake"); }
void vsrt_cv_notify_all(void* cv) noexcept { vs_point(cv); vsrt_wake((vsrt_list*)cv, nullptr, 1, "cv_wake"); }

int vsrt_cv_pone(void* cv) noexcept { vsrt_cv_notify_one(cv); return 0; }
int vsrt_cv_pall(void* cv) noexcept { vsrt_cv_notify_all(cv); return 0; }

// ---- atomic wait
static vsrt_list vsrt_g_futex;
static int vsrt_differs(const void* a, const void* b, ul n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (ul i = 0; i < n; i++) if (x[i] != y[i]) return 1;
  return 0;
}
void vsrt_futex_wait(const void* addr, const void* old, ul size) noexcept {
  vs_point(addr);
  if (vsrt_differs(addr, old, size)) return;
  vsrt_node n{0, addr, nullptr};
  vsrt_enlist(&vsrt_g_futex, &n);
  vs_await(&n.sig, 1, 0);
}
void vsrt_futex_wake(const void* addr, int all) noexcept {
  vs_point(addr);
  vsrt_wake(&vsrt_g_futex, addr, all, "futex_wake");
}

// std::future
bool vsrt_future_wait(void*, unsigned* addr, unsigned val, bool limited, long, long) noexcept {
  if (!limited) { vsrt_futex_wait(addr, &val, 4); return true; }
  vs_yield();
  vs_touch(addr);
  if (*addr != val) return true;
  vsrt_late = 1;
  return false;
}
void vsrt_future_wake(unsigned* addr) noexcept { vsrt_futex_wake(addr, 1); }

// ---- threads
__attribute__((weak)) void vsrt_tls_run();
static void (*volatile vsrt_g_tls_run)() = vsrt_tls_run;
static void vsrt_thread_main(void* s) {
  void** vt = *(void***)s;
  ((void (*)(void*))vt[2])(s);   // _M_run
  ((void (*)(void*))vt[1])(s);   // deleting destructor
  if (vsrt_g_tls_run) vsrt_g_tls_run();
  int* d = &vsrt_g_done[vs_self()];
  vs_release(d);
  *d = 1;
}
void vsrt_thread_start(ul* th, void** state, void*) {
  if (vsrt_g_thread_faults > 0 && vs_choice("thread_fault", 2)) {
    vsrt_g_thread_faults--;
    std::__throw_system_error(11);
  }
  void* s = *state;
  *state = nullptr;
  *th = (ul)(vs_spawn(vsrt_thread_main, s) + 1);
}
void vsrt_thread_join(ul* th) {
  vs_assert(*th != 0, "join of a thread which is not joinable");
  vs_assert(*th != (ul)(vs_self() + 1), "thread joins itself");
  int* d = &vsrt_g_done[*th - 1];
  vs_await(d, 1, 0);
  vs_acquire(d);
  *th = 0;
}
void vsrt_thread_detach(ul* th) {
  vs_assert(*th != 0, "detach of a thread which is not joinable");
  *th = 0;
}
unsigned vsrt_hardware_concurrency() noexcept { return 3; }
ul vsrt_pthread_self() noexcept { return (ul)(vs_self() + 1); }
int vsrt_sched_yield() noexcept { vs_yield(); return 0; }

// ---- static initialisation guards
int vsrt_guard_acquire(unsigned char* g) noexcept {
  int* busy = (int*)(g + 4);
  if (*(volatile unsigned char*)g) { vs_acquire(g); return 0; }
  vs_await(busy, 0, 0);
  if (*g) { vs_acquire(busy); return 0; }
  *busy = 1;
  return 1;
}
void vsrt_guard_release(unsigned char* g) noexcept {
  vs_release(g);
  vs_release(g + 4);
  *g = 1;
  *(int*)(g + 4) = 0;
}
void vsrt_guard_abort(unsigned char* g) noexcept { *(int*)(g + 4) = 0; }

// ---- ghost state of harnesses
int64_t vsg_load(const int64_t* p) noexcept { return *p; }
void vsg_store(int64_t* p, int64_t v) noexcept { *p = v; }
int64_t vsg_add(int64_t* p, int64_t v) noexcept { int64_t o = *p; *p = o + v; return o; }
void vsg_await(const int* p) noexcept { vs_await(p, 1, 0); vs_acquire(p); }
void vsg_signal(int* p) noexcept { vs_point(p); vs_release(p); *p = 1; }
}
