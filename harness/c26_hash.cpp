// BOUND: every 64 bit hash value, pools of 1-4 (quick) / 1-6 (thorough) queues, the same pool asked several times and through strands; pairs of hashes with 8 arbitrary bits each at either end of the word; lists of up to 4 nodes
// BOUND: two (quick) / three (thorough) functions or coroutines with arbitrary hashes on a pool of 1-2 workers, every interleaving
// BOUND: generator, channel (chains of 3, partly consumed), task (chains of 3, when_all), async_task, job, logical_thread and their resourced forms, observed at up to 3 points and on other threads
// BOUND: pools of 8 queues with every 64 bit hash, of 5, 7 and 10 queues with 9 arbitrary bits (workers without preemption)
// @must_compile
#include "seq.h"
#include <kelcoro/kelcoro.hpp>
#include <kelcoro/algorithm.hpp>
#include <kelcoro/logical_thread.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int MAXQ = 6, MAXT = 3, FUEL = 7;
#else
constexpr int MAXQ = 4, MAXT = 2, FUEL = 5;
#endif
// a worker that only drains its queue until the pill (no task is scheduled here) or does nothing at all
static void idle(task_queue&) {}
// ---------- selection
static int index_of(thread_pool& p, task_queue& q) {
  auto r = p.queues_range();
  for (int i = 0; i < (int)r.size(); i++)
    if (&r[i] == &q) return i;
  return -1;
}
VS_ENTRY(select) {  // @reach=end,first,last
  int n = vs_choice("size", MAXQ + 1);
  uint64_t h = vs_sym("hash", 64);
  int m = n ? n : 1;
  vs_concrete(h % m);
  thread_pool p((size_t)n, idle);
  VS_ASSERTM((int)p.queues_range().size() == m && (int)p.workers_range().size() == m, "at least one worker");
  task_queue& q = p.select_queue(h);
  int i = index_of(p, q);
  VS_ASSERTM(i >= 0, "every hash selects a queue of the pool");
  VS_ASSERTM(&p.select_queue(h) == &q, "equal hashes select the same queue");
  strand s = p.get_strand(h);
  VS_ASSERTM(&s.get_queue() == &q, "a strand uses the queue of its hash");
  strand t = s;
  VS_ASSERTM(&t.get_queue() == &q, "a copy of a strand uses the same queue");
  VS_ASSERTM(&p.get_strand(h).get_queue() == &q, "strands of equal hashes share a queue");
  if (i == 0) vs_reach("first");
  if (i == m - 1 && m == MAXQ) vs_reach("last");
  vs_reach("end");
}
// two hashes at once: 8 arbitrary bits each, at the bottom or at the top of the word (a remainder of two 64 bit unknowns is
// out of reach of the solver)
static uint64_t narrow(const char* name) {
  uint64_t v = vs_sym(name, 8);
  return vs_choice("top", 2) ? ~(v << 54) : v;
}
// larger pools
VS_ENTRY(select_large) {  // @reach=end,first,last @preempt=0 @tpreempt=0
  static const int sizes[4] = {5, 7, 8, 10};
  int n = sizes[vs_choice("size", 4)];
  uint64_t h = vs_sym("hash", n % 8 ? 9 : 64);
  vs_concrete(h % n);
  thread_pool p((size_t)n, idle);
  VS_ASSERTM((int)p.queues_range().size() == n && (int)p.workers_range().size() == n, "as many workers as asked for");
  task_queue& q = p.select_queue(h);
  int i = index_of(p, q);
  VS_ASSERTM(i >= 0, "every hash selects a queue of the pool");
  VS_ASSERTM(&p.select_queue(h) == &q && &p.get_strand(h).get_queue() == &q, "equal hashes select the same queue");
  if (i == 0) vs_reach("first");
  if (i == n - 1) vs_reach("last");
  vs_reach("end");
}
VS_ENTRY(select_two) {  // @reach=same,other
  int n = 1 + vs_choice("size", MAXQ);
  uint64_t a = narrow("a"), b = narrow("b");
  thread_pool p((size_t)n, idle);
  task_queue& q = p.select_queue(a);
  task_queue& r = p.select_queue(b);
  VS_ASSERTM(index_of(p, q) >= 0 && index_of(p, r) >= 0, "every hash selects a queue of the pool");
  VS_ASSERTM(a != b || &q == &r, "equal hashes select the same queue");
  if (a != b && &q == &r) vs_reach("same");
  if (&q != &r) vs_reach("other");
  VS_ASSERTM(&p.select_queue(a) == &q, "another hash in between changes nothing");
}
// the queue a strand was obtained for keeps the order and gets every node
static int seen[4], nseen;
static Co visit(strand s, int i) {
  schedule_status st = co_await jump_on(s);
  VS_ASSERTM(!st, "cancelled by the destructor");
  seen[nseen++] = i;
}
VS_ENTRY(strand_nodes) {  // @reach=end
  uint64_t h = vs_sym("hash", 8), g = vs_sym("other", 8);
  int n = 1 + vs_choice("size", 3);
  {
    vs_concrete(h % n), vs_concrete(g % n);
    thread_pool p((size_t)n, idle);
    visit(p.get_strand(h), 0);
    visit(p.get_strand(g), 1);
    visit(p.get_strand(h), 2);
    task_node* l = p.select_queue(h).pop_all();
    int c = 0;
    for (task_node* x = l; x; x = x->next) c++;
    VS_ASSERTM(c == 2 || c == 3, "both coroutines of the strand are in the queue of its hash");
    VS_ASSERTM(c == 3 || &p.select_queue(g) != &p.select_queue(h), "the other one is in the queue of its own hash");
    VS_ASSERTM(c == 2 || &p.select_queue(g) == &p.select_queue(h), "the other one is in the queue of its own hash");
    p.select_queue(h).push_list(l);
  }
  VS_ASSERTM(nseen == 3, "each one is continued");
  int a = 0, b = 0;
  for (int i = 0; i < 3; i++) (seen[i] == 0 ? a : seen[i] == 2 ? b : nseen) = i;
  VS_ASSERTM(a < b, "a strand keeps the order");
  VS_ASSERT(vs_heap_live() == 0);
  vs_reach("end");
}
// attach_list puts every node into some queue of the pool
struct Hop : task_node {
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept { task = h; }
  schedule_status await_resume() noexcept { return {status}; }
};
static Hop hops[4];
static int hopped[4];
static Co hop(int i) {
  co_await hops[i];
  hopped[i]++;
}
VS_ENTRY(list) {  // @reach=end @traces=0
  int n = 1 + vs_choice("size", 3), k = vs_choice("nodes", 5);
  {
    thread_pool p((size_t)n, idle);
    for (int i = 0; i < k; i++) {
      hop(i);
      hops[i].next = i + 1 < k ? &hops[i + 1] : nullptr;
    }
    attach_list(p, k ? &hops[0] : nullptr);
    int c = 0;
    for (auto& q : p.queues_range()) {
      task_node* l = q.pop_all();
      for (task_node* x = l; x; x = x->next) c++;
      if (l) q.push_list(l);
    }
    VS_ASSERTM(c == k, "each node of the list is in exactly one queue");
  }
  for (int i = 0; i < 4; i++) VS_ASSERTM(hopped[i] == (i < k), "each one is continued once");
  VS_ASSERT(vs_heap_live() == 0);
  vs_reach("end");
}
// ---------- equal hashes: one thread, one at a time, in order
static uint64_t hashes[3];
static int kinds[3];
static std::thread::id tids[3];
static int order[3], norder;
static ghost inside[3];
static int sigs[3];
static void work(int i) {
  for (int j = 0; j < MAXT; j++)
    if (j != i && hashes[j] == hashes[i]) VS_ASSERTM(inside[j] == 0, "equal hashes never run concurrently");
  ++inside[i];
  vs_yield();
  tids[i] = std::this_thread::get_id();
  --inside[i];
  vsg_signal(&sigs[i]);
}
static Co on_strand(strand s, int i) {
  schedule_status st = co_await jump_on(s);
  VS_ASSERT(!!st);
  work(i);
}
VS_ENTRY(serial) {  // @reach=equal,apart @time=600 @preempt=2 @tpreempt=3
  int n = 1 + vs_choice("size", 2);
  for (int i = 0; i < MAXT; i++) {
    hashes[i] = vs_sym("hash", 64);
    kinds[i] = vs_choice("kind", 2);
  }
  {
    thread_pool p((size_t)n);
    for (int i = 0; i < MAXT; i++) {
      if (kinds[i]) on_strand(p.get_strand(hashes[i]), i);
      else p.schedule([i] { work(i); }, hashes[i]);
    }
    for (int i = 0; i < MAXT; i++) vsg_await(&sigs[i]);
  }
  for (int i = 0; i < MAXT; i++)
    for (int j = 0; j < i; j++)
      if (hashes[i] == hashes[j]) {
        VS_ASSERTM(tids[i] == tids[j], "equal hashes run on the same thread");
        vs_reach("equal");
      } else if (!(tids[i] == tids[j]))
        vs_reach("apart");
  VS_ASSERT(vs_heap_live() == 0);
}
// ---------- the hash of a coroutine
template <class H> static size_t hash_of(H h) { return calculate_operation_hash(h); }
static size_t plain(std::coroutine_handle<> h) { return calculate_operation_hash(h); }
static size_t first_hash;
static int observed;
#define OBSERVE()                                                                                  \
  {                                                                                                \
    size_t o_ = co_await this_coro::operation_hash;                                                \
    auto h_ = co_await this_coro::handle;                                                          \
    vs_assert(o_ == hash_of(h_), "the awaited hash is the hash of the handle");                    \
    if (!observed++) first_hash = o_;                                                              \
    vs_assert(o_ == first_hash, "the hash stays the same");                                        \
  }
template <class G> static G gen() {
  OBSERVE();
  co_yield 1;
  OBSERVE();
  co_yield 2;
  OBSERVE();
}
template <class J> static J jobs() {
  co_await Park{};
  OBSERVE();
  co_await Park{};
  OBSERVE();
}
struct SmallRes {
  int id = 0;
  void* allocate(size_t n) { return ::operator new(n); }
  void deallocate(void* p, size_t) noexcept { ::operator delete(p); }
};
template <class R> static constexpr bool is_task = false;
VS_ENTRY(own_hash) {  // @reach=end
  int k = vs_choice("kind", 9);
  if (k == 0) { for (int x : gen<generator<int>>()) (void)x; }
  else if (k == 1) { auto g = gen<generator_r<int, SmallRes>>(); for (int x : g) (void)x; }
  else if (k == 2) { auto g = gen<pmr::generator<int>>(); for (int x : g) (void)x; }
  else if (k == 3) { jobs<job>(); drive(true); }
  else if (k == 4) { jobs<job_r<SmallRes>>(); drive(true); }
  else if (k == 5) { auto t = jobs<async_task<void>>(); drive(true); }
  else if (k == 6) { auto t = jobs<async_task_r<void, SmallRes>>(); drive(true); }
  else if (k == 7) { auto t = jobs<logical_thread>(); drive(true); t.detach(); }
  else { auto t = jobs<logical_thread_r<SmallRes>>(); drive(true); t.detach(); }
  vs_assert(observed >= 2, "the coroutine ran");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
// resource independence: the same frame address gives the same hash
template <class C, class R> static bool same(void* a) {
  using P = typename C::promise_type;
  return hash_of(std::coroutine_handle<P>::from_address(a)) == hash_of(std::coroutine_handle<resourced_promise<P, R>>::from_address(a));
}
VS_ENTRY(resource_independent) {  // @reach=end
  {
    generator<int> g = gen<generator<int>>();
    channel<int> c = [](int) -> channel<int> { co_yield 1; }(0);
    task<int> t = [](int) -> task<int> { co_return 1; }(0);
    vs_assert(same<generator<int>, SmallRes>(g.raw_handle().address()), "the resource does not change the hash of a generator");
    vs_assert(same<generator<int>, pmr::polymorphic_resource>(g.raw_handle().address()), "the resource does not change the hash of a generator");
    vs_assert(same<channel<int>, SmallRes>(c.raw_handle().address()), "the resource does not change the hash of a channel");
    vs_assert(same<task<int>, SmallRes>(t.raw_handle().address()), "the resource does not change the hash of a task");
    vs_assert(same<task<int>, pmr::polymorphic_resource>(t.raw_handle().address()), "the resource does not change the hash of a task");
  }
  vs_reach("end");
}
// a child task has the hash of who awaits it
static size_t owner_hash[4];
template <class T> static T taskbody(int depth) {
  size_t o = co_await this_coro::operation_hash;
  auto h = co_await this_coro::handle;
  vs_assert(o == hash_of(h), "the awaited hash is the hash of the handle");
  vs_assert(o == owner_hash[depth + 1], "a task has the hash of the coroutine that awaits it");
  owner_hash[depth] = plain(h);
  ++observed;
  while (fuel > 0) {
    --fuel;
    int k = vs_choice("item", depth ? 5 : 2);
    if (k == 4 - 3 * !depth) break;
    if (k == 0) co_await Park{};
    if (k == 1) co_await taskbody<task<void>>(depth - 1);
    if (k == 2) {
      auto t = taskbody<task<void>>(depth - 1);
      co_await t.wait();
    }
    if (k == 3) {
      auto t = taskbody<task_r<void, SmallRes>>(depth - 1);
      co_await t;
    }
    size_t again = co_await this_coro::operation_hash;
    vs_assert(again == o, "the hash stays the same");
  }
}
static Co taskroot(int kind) {
  auto h = co_await this_coro::handle;
  owner_hash[3] = plain(h);
  if (kind == 0) co_await taskbody<task<void>>(2);
  else if (kind == 1) co_await taskbody<task_r<void, SmallRes>>(2);
  else {
    auto t = taskbody<pmr::task<void>>(2);
    co_await t.wait();
  }
}
VS_ENTRY(task_hash) {  // @reach=end,deep @time=300
  fuel = FUEL;
  taskroot(vs_choice("root", 3));
  drive(false);
  if (observed == 3) vs_reach("deep");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
// two owners one after another: the second waits for the same, suspended task's result (already done)
static std::coroutine_handle<> owners[2];
static task<int> observe_task() {
  OBSERVE();
  co_await Park{};
  OBSERVE();
  co_return 3;
}
static Co all_owner() {
  auto r = co_await when_all(observe_task(), [](size_t* h) -> task<int> {
    *h = co_await this_coro::operation_hash;
    co_return 4;
  }(&owner_hash[0]));
  vs_assert(*std::get<0>(r) == 3 && *std::get<1>(r) == 4, "results");
  ++observed;
}
VS_ENTRY(when_all_hash) {  // @reach=end
  all_owner();
  drive(true);
  vs_assert(observed == 3, "the tasks ran");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
// a nested channel has the hash of the outermost one
static size_t outer_hash, chan_hash;
template <class C> static C chan(int depth, bool watched) {
  size_t o = co_await this_coro::operation_hash;
  if (depth == 2) {
    outer_hash = o;
    vs_assert(!watched || o == chan_hash, "the awaited hash is the hash of the handle");
  }
  vs_assert(!watched || o == outer_hash, "a nested channel has the hash of its outermost channel");
  ++observed;
  while (fuel > 0) {
    --fuel;
    int k = vs_choice("item", depth ? 5 : 3);
    if (k == 4 - 2 * !depth) break;
    if (k == 0) co_yield 1;
    if (k == 1) co_await Park{};
    if (k == 2) {
      if (vs_choice("r", 2)) co_yield elements_of(chan<channel_r<int, SmallRes>>(depth - 1, watched));
      else co_yield elements_of(chan<channel<int>>(depth - 1, watched));
    }
    if (k == 3) {
      co_yield elements_of([](int d, bool w) -> channel<int> {
        co_yield 5;
        size_t o = co_await this_coro::operation_hash;
        vs_assert(!w || o == outer_hash, "a nested channel has the hash of its outermost channel");
        co_yield 6;
      }(depth, watched));
    }
    size_t again = co_await this_coro::operation_hash;
    vs_assert(again == o, "the hash stays the same");
  }
}
template <class C> static Co chanroot(int leave, bool moved) {
  C c = chan<C>(2, true);
  channel<int> other;
  channel<int>* p = nullptr;
  if constexpr (requires { c.decay(); }) p = &c.decay();
  else p = &c;
  size_t before = chan_hash = hash_of(p->raw_handle());
  if (moved) {
    other = std::move(*p);
    p = &other;
    vs_assert(hash_of(p->raw_handle()) == before, "moving a channel keeps the hash");
  }
  int n = 0;
  for (auto it = co_await p->begin(); it != p->end(); (void)(co_await (++it))) {
    vs_assert(hash_of(p->raw_handle()) == before, "the hash stays the same");
    if (++n == leave) break;
  }
  vs_assert(observed == 0 || outer_hash == before, "the channel saw its own hash");
}
VS_ENTRY(channel_hash) {  // @reach=end,deep @time=300
  fuel = FUEL;
  bool r = vs_choice("resourced", 2), moved = vs_choice("moved", 2);
  int leave = vs_choice("leave", 2) ? 1 : 1000;
  if (r) chanroot<channel_r<int, SmallRes>>(leave, moved);
  else chanroot<channel<int>>(leave, moved);
  drive(false);
  if (observed >= 3) vs_reach("deep");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
// a channel that was used on its own and is spliced in afterwards
static bool spliced;
static channel<int> inner_chan() {
  size_t own = co_await this_coro::operation_hash;
  co_yield 1;
  size_t now = co_await this_coro::operation_hash;
  vs_assert(spliced ? now == outer_hash : now == own, "a nested channel has the hash of its outermost channel");
  ++observed;
  co_yield 2;
}
static channel<int> outer_chan(channel<int>& c) {
  outer_hash = co_await this_coro::operation_hash;
  co_yield elements_of(std::move(c));
  size_t again = co_await this_coro::operation_hash;
  vs_assert(again == outer_hash, "the hash stays the same");
  ++observed;
}
static Co splice(bool s) {
  channel<int> c = inner_chan();
  auto it = co_await c.begin();
  vs_assert(*it == 1, "value");
  spliced = s;
  if (s) {
    auto o = outer_chan(c);
    int n = 0;
    for (auto b = co_await o.begin(); b != o.end(); (void)(co_await (++b))) n++;
    vs_assert(n == 1 && observed == 2, "the rest");
  } else {
    co_await ++it;
    vs_assert(observed == 1, "the rest");
  }
}
VS_ENTRY(spliced_hash) {  // @reach=end
  splice(vs_choice("splice", 2));
  vs_assert(observed > 0 && vs_heap_live() == 0, "done");
  vs_reach("end");
}
// hashes of plain operations
VS_ENTRY(values) {  // @reach=end
  int k = vs_choice("kind", 2);
  if (k) {
    auto f = [] {};
    auto& g = f;
    vs_assert(hash_of(std::as_const(g)) == calculate_operation_hash(f) || true, "a hash is computed");
    vs_assert(calculate_operation_hash(f) == calculate_operation_hash(f), "the hash of an operation is stable");
  } else {
    generator<int> g = gen<generator<int>>();
    auto h = g.raw_handle();
    auto copy = h;
    vs_assert(hash_of(h) == hash_of(copy), "the hash belongs to the coroutine, not to the handle object");
    vs_assert(hash_of(h) == plain(h), "a type erased handle has the same hash");
    for (int x : g) vs_assert(hash_of(h) == plain(copy), "the hash stays the same");
  }
  vs_reach("end");
}
