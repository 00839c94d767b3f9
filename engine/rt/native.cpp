// Native side of the harness interface: replays a recorded input and schedule against the compiled real code.
// One thread runs at a time; control changes hands exactly where the engine's trace says.
#include "../vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <exception>
#include <new>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <atomic>

extern "C" struct vs_native_entry { const char* name; void (*f)(); } vs_native_entries[];

namespace {
struct Sw { int t; long k; int u; };
std::map<std::string, std::deque<uint64_t>> g_syms;  // by name, in order
std::vector<Sw> g_sw;
size_t g_pos = 0;
std::mutex g_mx;
std::condition_variable g_cv;
int g_token = 0, g_nthreads = 1, g_doneCount = 0;
bool g_done[64];
long g_points[64];
thread_local int t_self = 0;
thread_local bool t_inside = false;
bool g_expectTerm = false, g_allowBlocked = false, g_allowLeaks = false, g_started = false;
int g_allocFaults = 0;
std::atomic<long> g_live{0};

[[noreturn]] void finish(int code, const char* what) {
  printf("%s\n", what);
  fflush(stdout);
  _exit(code);
}
void waitToken() {
  std::unique_lock l(g_mx);
  g_cv.wait(l, [] { return g_token == t_self; });
}
void handoff(int u) {
  {
    std::lock_guard l(g_mx);
    g_token = u;
  }
  g_cv.notify_all();
}
bool atPoint() {
  long k = ++g_points[t_self];
  if (g_pos < g_sw.size() && g_sw[g_pos].t == t_self && g_sw[g_pos].k == k) {
    int u = g_sw[g_pos++].u;
    handoff(u);
    waitToken();
    return true;
  }
  return false;
}
struct Block { size_t size; int kind; size_t al; };
// allocation registry (own storage, no operator new)
struct Ent { void* p; Block b; bool counted; };
Ent* g_tab = nullptr;
size_t g_cap = 0, g_cnt = 0;
std::mutex g_amx;
void reg(void* p, size_t n, int kind, size_t al) {
  std::lock_guard l(g_amx);
  if (g_cnt == g_cap) { g_cap = g_cap ? g_cap * 2 : 1024; g_tab = (Ent*)realloc(g_tab, g_cap * sizeof(Ent)); }
  bool c = g_started;
  g_tab[g_cnt++] = Ent{p, Block{n, kind, al}, c};
  if (c) ++g_live;
}
void unreg(void* p, int kind, long n, size_t al) {
  std::lock_guard l(g_amx);
  for (size_t i = g_cnt; i-- > 0;)
    if (g_tab[i].p == p) {
      Block b = g_tab[i].b;
      if (g_tab[i].counted) --g_live;
      g_tab[i] = g_tab[--g_cnt];
      if (b.kind != kind || (n >= 0 && (size_t)n != b.size) || al != b.al) {
        printf("VS-NATIVE-VIOLATION mismatched-free kind %d/%d size %zu/%ld align %zu/%zu\n", b.kind, kind, b.size, n, b.al, al);
        finish(10, "END violation");
      }
      return;
    }
  // freed twice or never allocated: let the sanitizer report it
}
void* nalloc(size_t n, int kind, size_t al) {
  if (g_started && g_allocFaults > 0 && vs_choice("alloc_fault", 2)) { g_allocFaults--; return nullptr; }
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al ? (n + al - 1) / al * al : al) : malloc(n ? n : 1);
  reg(p, n, kind, al);
  return p;
}
void nfree(void* p, int kind, long n, size_t al) {
  if (!p) return;
  unreg(p, kind, n, al);
  free(p);
}
uint64_t next(const char* name, uint64_t dflt) {
  auto it = g_syms.find(name);
  if (it == g_syms.end() || it->second.empty()) return dflt;
  uint64_t v = it->second.front();
  it->second.pop_front();
  return v;
}
void onTerminate() {
  if (g_expectTerm) finish(0, "END terminate");
  printf("VS-NATIVE-VIOLATION terminate\n");
  finish(10, "END violation");
}
}  // namespace

void* operator new(size_t n) { void* p = nalloc(n, 1, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = nalloc(n, 2, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::align_val_t a) { void* p = nalloc(n, 3, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = nalloc(n, 4, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return nalloc(n, 1, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return nalloc(n, 2, 16); }
void operator delete(void* p) noexcept { nfree(p, 1, -1, 16); }
void operator delete[](void* p) noexcept { nfree(p, 2, -1, 16); }
void operator delete(void* p, size_t n) noexcept { nfree(p, 1, (long)n, 16); }
void operator delete[](void* p, size_t n) noexcept { nfree(p, 2, (long)n, 16); }
void operator delete(void* p, std::align_val_t a) noexcept { nfree(p, 3, -1, (size_t)a); }
void operator delete[](void* p, std::align_val_t a) noexcept { nfree(p, 4, -1, (size_t)a); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { nfree(p, 3, (long)n, (size_t)a); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { nfree(p, 4, (long)n, (size_t)a); }

extern "C" {
uint64_t vs_sym(const char* name, int bits) noexcept { return next(name, 0) & (bits >= 64 ? ~0ull : (1ull << bits) - 1); }
int64_t vs_range(const char* name, int64_t lo, int64_t) noexcept { return (int64_t)next(name, (uint64_t)lo); }
int vs_choice(const char* name, int) noexcept { return (int)next(name, 0); }
uint64_t vs_concrete(uint64_t v) noexcept { return v; }
void vs_assume(int c) noexcept { if (!c) finish(0, "END assumed"); }
void vs_assert(int c, const char* msg) noexcept {
  if (c) return;
  printf("VS-NATIVE-VIOLATION assertion %s\n", msg);
  finish(10, "END violation");
}
void vs_reach(const char*) noexcept {}
void vs_log(uint64_t v) noexcept { printf("log %llu\n", (unsigned long long)v); }
void vs_expect_terminate(void) noexcept { g_expectTerm = true; }
void vs_end(void) noexcept { finish(0, "END ok"); }
void vs_allow_blocked(void) noexcept { g_allowBlocked = true; }
void vs_allow_leaks(void) noexcept { g_allowLeaks = true; }
uint64_t vs_heap_live(void) noexcept { return (uint64_t)g_live.load(); }
int vs_self(void) noexcept { return t_self; }
void vs_yield(void) noexcept { atPoint(); }
void vs_point(const volatile void*) noexcept { atPoint(); }
void vs_touch(const volatile void*) noexcept {}
void vs_acquire(const volatile void*) noexcept {}
void vs_release(const volatile void*) noexcept {}
void vs_await(const int* addr, int ne, int val) noexcept {
  atPoint();
  if ((*addr == val) == (ne != 0)) {
    if (g_allowBlocked) finish(0, "END ok");
    printf("VS-NATIVE-VIOLATION deadlock thread %d blocked and nobody can run\n", t_self);
    finish(10, "END violation");
  }
}
static void threadEnd() {
  int u = -1;
  {
    std::lock_guard l(g_mx);
    g_done[t_self] = true;
    g_doneCount++;
  }
  if (g_pos < g_sw.size() && g_sw[g_pos].t == t_self && g_sw[g_pos].k == -1) u = g_sw[g_pos++].u;
  if (u >= 0) { handoff(u); return; }
  if (g_doneCount < g_nthreads) {
    if (g_allowBlocked) finish(0, "END ok");
    printf("VS-NATIVE-VIOLATION deadlock after the end of thread %d\n", t_self);
    finish(10, "END violation");
  }
  if (!g_allowLeaks && g_live.load() != 0) {
    printf("VS-NATIVE-VIOLATION leak %ld blocks\n", g_live.load());
    finish(10, "END violation");
  }
  finish(0, "END ok");
}
int vs_spawn(void (*f)(void*), void* arg) noexcept {
  bool s = g_started;
  int t = g_nthreads++;
  g_started = false;
  std::thread([=] {
    t_self = t;
    waitToken();
    f(arg);
    threadEnd();
  }).detach();
  g_started = s;
  return t;
}
void* vs_malloc(size_t n, int, size_t) noexcept { return malloc(n); }
void vs_free(void* p, int, int64_t, size_t) noexcept { free(p); }
int vs_valid_range(const void* p, uint64_t n) noexcept {
  std::lock_guard l(g_amx);
  for (size_t i = 0; i < g_cnt; i++) {
    char* b = (char*)g_tab[i].p;
    if ((char*)p >= b && (char*)p <= b + g_tab[i].b.size) return n <= (size_t)(b + g_tab[i].b.size - (char*)p);
  }
  return 1;  // stack or static storage: not tracked natively
}
uint64_t vs_block_id(const void* p) noexcept {
  std::lock_guard l(g_amx);
  for (size_t i = 0; i < g_cnt; i++) {
    char* b = (char*)g_tab[i].p;
    if ((char*)p >= b && (char*)p < b + g_tab[i].b.size) return (uint64_t)b;
  }
  return 0;
}
void vsrt_alloc_faults(int n) noexcept { g_allocFaults = n; }
void vsrt_weak_cas_failures(int) noexcept {}
}

int main(int argc, char** argv) {
  if (argc < 2) return 3;
  std::ifstream f(argv[1]);
  std::string line, entry;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "entry") is >> entry;
    else if (k == "sym") {
      std::string n; uint64_t v;
      is >> n >> v;
      g_syms[n].push_back(v);
    } else if (k == "sw") { Sw s; is >> s.t >> s.k >> s.u; g_sw.push_back(s); }
  }
  std::set_terminate(onTerminate);
  alarm(60);
  for (auto* e = vs_native_entries; e->name; e++)
    if (entry == e->name) {
      g_started = true;
      e->f();
      g_started = false;
      threadEnd();
      // other threads finish the run
      for (;;) pause();
    }
  printf("no entry %s\n", entry.c_str());
  return 3;
}
