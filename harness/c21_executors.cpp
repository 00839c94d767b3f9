// BOUND: lists of 0-4 nodes (0-13 without threads); executors: recording with any status (symbolic), inline, new thread, no-op, task queue, worker, strand, thread pool of 1-2 workers, type-erased reference (to each of those, copied, assigned through an optional)
// BOUND: executors that run and free each node at once; every interleaving for those with threads
// @must_compile
#include "seq.h"
#include <kelcoro/executor_interface.hpp>
#include <kelcoro/thread_pool.hpp>
using namespace dd;
static_assert(executor<any_executor_ref> && executor<worker> && executor<strand> && executor<thread_pool> && executor<task_queue>);
static_assert(executor<const noop_executor_t> && executor<const this_thread_executor_t> && executor<const new_thread_executor_t>);
// keeps what was attached
struct Rec {
  task_node* got[8];
  int n = 0;
  void attach(task_node* node) {
    VS_ASSERTM(node && node->task, "attached with its coroutine set");
    VS_ASSERT(n < 16);
    got[n++] = node;
  }
};
static ghost resumed[8], left;
static schedule_status seen[8];
static int where_run[8];
static int sig_run[8];
template <class E> static Co hop(E& e, int i) {
  Live l;
  seen[i] = co_await jump_on(e);
  VS_ASSERTM(++resumed[i] == 1, "resumed exactly once");
  where_run[i] = vs_self();
  vsg_signal(&sig_run[i]);
}
// the status set by the executor is the one reported
VS_ENTRY(exec_status) {  // @reach=end
  bool erased = vs_choice("erased", 2);
  {
    Rec r;
    any_executor_ref er(r);
    if (erased) hop(er, 0);
    else hop(r, 0);
    VS_ASSERTM(r.n == 1 && resumed[0] == 0, "attached once, not resumed by itself");
    VS_ASSERT(r.got[0]->status == schedule_errc::ok);
    int64_t st = vs_range("status", 0, 3);
    r.got[0]->status = (schedule_errc)st;
    auto h = r.got[0]->task;
    h.resume();
    VS_ASSERT(resumed[0] == 1);
    VS_ASSERTM((int64_t)seen[0].what == st && (bool)seen[0] == (st == 0), "the status is reported");
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(exec_status_default) {
  schedule_status s;
  VS_ASSERT(s && s.what == schedule_errc::ok);
  VS_ASSERT(task_node::deadpill().is_deadpill() && task_node::deadpill().next == nullptr);
  task_node n{.next = nullptr, .task = std::noop_coroutine()};
  VS_ASSERT(!n.is_deadpill() && n.status == schedule_errc::ok);
}
// type-erased references and their copies reach the same executor
VS_ENTRY(exec_erased_copies) {  // @reach=end
  {
    Rec r, other;
    auto a = std::make_unique<any_executor_ref>(r);
    any_executor_ref b(*a), c(std::move(*a));
    any_executor_ref d = b;
    std::construct_at(a.get(), other);  // the copies do not follow
    a.reset();
    any_executor_ref o(other);
    hop(b, 0);
    hop(c, 1);
    hop(d, 2);
    hop(o, 3);
    VS_ASSERTM(r.n == 3 && other.n == 1, "each copy attaches to the executor it refers to");
    for (int i = 2; i >= 0; --i) {
      r.got[i]->task.resume();
      VS_ASSERT(resumed[i] == 1 && seen[i]);
    }
    other.got[0]->task.resume();
    VS_ASSERT(resumed[3] == 1);
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
// inline: runs in place, before attach returns
VS_ENTRY(exec_inline) {  // @reach=end
  {
    this_thread_executor_t own;
    any_executor_ref er(own);
    switch (vs_choice("kind", 3)) {
      case 0: hop(this_thread_executor, 0); break;
      case 1: hop(own, 0); break;
      case 2: hop(er, 0); break;
    }
    VS_ASSERTM(resumed[0] == 1 && seen[0] && where_run[0] == vs_self(), "ran in place");
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(exec_noop) {  // @reach=end
  static std::coroutine_handle<> h;
  struct Save {
    bool await_ready() { return false; }
    bool await_suspend(std::coroutine_handle<> x) {
      h = x;
      return false;
    }
    void await_resume() {}
  };
  {
    noop_executor_t own;
    any_executor_ref er(own);
    auto body = [](auto& e) -> Co {
      Live l;
      co_await Save{};
      (void)co_await jump_on(e);
      ++resumed[0];
    };
    if (vs_choice("erased", 2)) body(er);
    else body(noop_executor);
    VS_ASSERTM(resumed[0] == 0 && live == 1, "never runs");
    h.destroy();
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(exec_new_thread) {  // @reach=end
  static int plain = 0;
  static int arrived;
  int n = 1 + vs_choice("n", 2);
  plain = 5;
  new_thread_executor_t own;
  any_executor_ref er(own);
  static int out[2];
  auto body = [](auto& e, int i) -> Co {
    int before = vs_self();
    schedule_status s = co_await jump_on(e);
    VS_ASSERTM(s, "executed");
    VS_ASSERTM(++resumed[i] == 1 && vs_self() != before, "resumed once, on another thread");
    VS_ASSERTM(plain == 5, "sees what was written before");
    out[i] = 7 + i;
    where_run[i] = vs_self();
    vsg_signal(&sig_run[i]);
  };
  for (int i = 0; i < n; ++i)
    if (vs_choice("erased", 2)) body(er, i);
    else body(new_thread_executor, i);
  for (int i = 0; i < n; ++i) {
    vsg_await(&sig_run[i]);
    VS_ASSERT(resumed[i] == 1 && out[i] == 7 + i);
  }
  if (n == 2) VS_ASSERTM(where_run[0] != where_run[1], "one thread each");
  vs_reach("end");
}
// no thread could be created: the coroutine is not resumed and the failure is seen by the attaching side
VS_ENTRY(exec_new_thread_fault) {  // @reach=failed,ran @traces=0
  vsrt_thread_faults(1);
  static int sig;
  bool failed = false;
  task_node node;
  static bool ran_;
  auto mk = [](task_node& n) -> Co {
    struct A {
      task_node& n;
      bool await_ready() { return false; }
      void await_suspend(std::coroutine_handle<> h) { n.task = h; }
      void await_resume() {}
    };
    Live l;
    co_await A{n};
    ++resumed[0];
    vsg_signal(&sig);
  };
  mk(node);
  try {
    new_thread_executor.attach(&node);
  } catch (...) {
    failed = true;
  }
  if (failed) {
    VS_ASSERTM(resumed[0] == 0, "not resumed");
    node.task.destroy();
  } else {
    vsg_await(&sig);
    VS_ASSERT(resumed[0] == 1);
  }
  vs_reach(failed ? "failed" : "ran");
}
// ---- lists
struct Eager {              // runs and frees each node before attach returns
  int order[16];
  int n = 0;
  void attach(task_node* node);
};
struct HNode : task_node {
  int id;
};
void Eager::attach(task_node* node) {
  HNode* h = static_cast<HNode*>(node);
  VS_ASSERT(n < 16);
  order[n++] = h->id;
  h->next = (task_node*)0x10;
  delete h;
}
static task_node* make_list(int len) {
  HNode* top = nullptr;
  for (int i = len - 1; i >= 0; --i) {
    HNode* x = new HNode;
    x->id = i;
    x->task = std::noop_coroutine();
    x->next = top;
    top = x;
  }
  return top;
}
VS_ENTRY(list_attach_eager) {  // @reach=end
  int len = vs_choice("len", 14);
  {
    Eager e;
    task_node* top = make_list(len);
    if (vs_choice("erased", 2)) {
      any_executor_ref r(e);
      attach_list(r, top);
    } else
      attach_list(e, top);
    VS_ASSERTM(e.n == len, "every node exactly once");
    for (int i = 0; i < len; ++i) VS_ASSERTM(e.order[i] == i, "in list order");
  }
  VS_ASSERT(vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(list_attach_queue) {  // @reach=end
  int len = vs_choice("len", 14);
  {
    task_queue q;
    attach_list(q, make_list(len));
    task_node* t = q.pop_all();
    for (int i = 0; i < len; ++i) {
      VS_ASSERT(t && static_cast<HNode*>(t)->id == i);
      task_node* n = t->next;
      delete static_cast<HNode*>(t);
      t = n;
    }
    VS_ASSERT(!t);
  }
  VS_ASSERT(vs_heap_live() == 0);
  vs_reach("end");
}
// coroutines that end (and free their node) as soon as they are resumed, over executors with threads
static task_node* chain_top;
static Co listed(int i, task_node** tail) {
  struct A : task_node {
    task_node** tail;
    bool await_ready() { return false; }
    void await_suspend(std::coroutine_handle<> h) {
      task = h;
      next = *tail;
      *tail = this;
    }
    schedule_errc await_resume() { return status; }
  };
  Live l;
  A a;
  a.tail = tail;
  seen[i].what = co_await a;
  VS_ASSERTM(++resumed[i] == 1, "each node exactly once");
  where_run[i] = vs_self();
  vsg_signal(&sig_run[i]);
}
static void list_over(auto& e, int len) {
  for (int i = len - 1; i >= 0; --i) listed(i, &chain_top);
  attach_list(e, chain_top);
}
VS_ENTRY(list_attach_inline) {  // @reach=end
  int len = vs_choice("len", 5);
  list_over(this_thread_executor, len);
  for (int i = 0; i < len; ++i) VS_ASSERT(resumed[i] == 1 && seen[i]);
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(list_attach_worker) {  // @reach=end
  int len = vs_choice("len", 4);
  {
    worker w;
    list_over(w, len);
    for (int i = 0; i < len; ++i) vsg_await(&sig_run[i]);
  }
  for (int i = 0; i < len; ++i) VS_ASSERT(resumed[i] == 1 && seen[i]);
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
static void list_pool(int workers, bool wait, bool erased) {
  int len = vs_choice("len", 4);
  {
    thread_pool p(workers);
    if (erased) {
      any_executor_ref r(p);
      list_over(r, len);
    } else
      list_over(p, len);
    if (wait) {
      for (int i = 0; i < len; ++i) vsg_await(&sig_run[i]);
      for (int i = 0; i < len; ++i) VS_ASSERTM(seen[i], "executed");
    }
  }
  for (int i = 0; i < len; ++i) VS_ASSERTM(resumed[i] == 1, "every node is resumed exactly once");
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(list_attach_pool) { list_pool(1 + vs_choice("n", 2), true, false); }            // @reach=end @traces=0
VS_ENTRY(list_attach_pool_dies) { list_pool(1 + vs_choice("n", 2), false, false); }      // @reach=end @traces=0
VS_ENTRY(list_attach_pool_erased) { list_pool(2, vs_choice("wait", 2), true); }          // @reach=end @traces=0
VS_ENTRY(list_attach_pool_stopped) {  // @reach=end @traces=0
  int len = vs_choice("len", 4);
  {
    thread_pool p(2);
    p.request_stop();
    for (auto& t : p.workers_range()) t.join();
    list_over(p, len);
  }
  for (int i = 0; i < len; ++i) VS_ASSERTM(resumed[i] == 1 && seen[i].what == schedule_errc::cancelled, "cancelled, and says so");
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
// over a pool the nodes of a list go to the workers in turn: that is what the list form is for
static void no_job(task_queue&) {}
VS_ENTRY(list_attach_pool_spread) {  // @reach=end @traces=0
  int n = 1 + vs_choice("n", 4), len = vs_choice("len", 6);
  {
    thread_pool p(n, no_job);
    list_over(p, len);
    int total = 0;
    for (task_queue& q : p.queues_range()) {
      task_node* top = q.pop_all();
      int c = 0;
      for (task_node* x = top; x; x = x->next) ++c;
      VS_ASSERTM(c == len / n || c == (len + n - 1) / n, "the nodes are spread evenly");
      total += c;
      if (top) q.push_list(top);
    }
    VS_ASSERTM(total == len, "every node exactly once");
  }
  for (int i = 0; i < len; ++i) VS_ASSERTM(resumed[i] == 1 && seen[i].what == schedule_errc::cancelled, "cancelled by the destructor");
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(list_reverse) {  // @reach=end
  int len = vs_choice("len", 14);
  HNode n[14];
  int64_t pay[14];
  for (int i = 0; i < len; ++i) {
    n[i].id = i;
    n[i].next = i + 1 < len ? &n[i + 1] : nullptr;
    n[i].status = (schedule_errc)(pay[i] = vs_range("status", 0, 3));
  }
  task_node* r = reverse_list(len ? &n[0] : nullptr);
  for (int i = len - 1; i >= 0; --i) {
    VS_ASSERTM(r == &n[i], "the same nodes in the opposite order");
    VS_ASSERT((int64_t)r->status == pay[i]);
    r = r->next;
  }
  VS_ASSERTM(!r, "terminated");
  vs_reach("end");
}
static constexpr bool reverse_constexpr() {
  task_node a, b, c;
  a.next = &b;
  b.next = &c;
  task_node* r = reverse_list(&a);
  return r == &c && c.next == &b && b.next == &a && !a.next && reverse_list(nullptr) == nullptr;
}
static_assert(reverse_constexpr());
// ---- a coroutine that travels through several contexts
VS_ENTRY(exec_travel) {  // @reach=end @traces=0
  static ghost main_, on_worker, on_new, on_pool, on_strand;
  static std::thread::id wid;
  static int sig;
  {
    worker w;
    thread_pool p(1);
    wid = w.get_id();
    int me = vs_self();
    auto trip = [](worker& w, thread_pool& p, int me) -> Co {
      Live l;
      if (!co_await jump_on(w)) co_return;
      on_worker += std::this_thread::get_id() == wid;
      VS_ASSERT(co_await jump_on(this_thread_executor));
      on_worker += std::this_thread::get_id() == wid;
      VS_ASSERT(co_await jump_on(new_thread_executor));
      VS_ASSERT(vs_self() != me && std::this_thread::get_id() != wid && !p.is_worker());
      ++on_new;
      VS_ASSERT(co_await jump_on(p));
      VS_ASSERT(p.is_worker());
      ++on_pool;
      VS_ASSERT(co_await jump_on(strand(w)));
      VS_ASSERT(std::this_thread::get_id() == wid);
      any_executor_ref r(w);
      VS_ASSERT(co_await jump_on(r));
      VS_ASSERT(std::this_thread::get_id() == wid);
      ++on_strand;
      vsg_signal(&sig);
    };
    trip(w, p, me);
    vsg_await(&sig);
  }
  VS_ASSERT(on_worker == 2 && on_new == 1 && on_pool == 1 && on_strand == 1);
  VS_ASSERT(live == 0);
  vs_reach("end");
}
// cancelled by a dying worker: reported as such
VS_ENTRY(exec_cancelled) {  // @reach=end,ok,cancelled
  static int64_t last = -1;
  {
    worker w;
    auto twice = [](worker& w) -> Co {
      Live l;
      schedule_status s = co_await jump_on(w);
      if (s) {
        auto t = std::this_thread::get_id();
        s = co_await jump_on(w);
        if (s) VS_ASSERT(std::this_thread::get_id() == t);
      }
      VS_ASSERT(s.what == schedule_errc::ok || s.what == schedule_errc::cancelled);
      ++resumed[0];
      seen[0] = s;
    };
    twice(w);
  }
  VS_ASSERT(resumed[0] == 1 && live == 0);
  vs_reach(seen[0] ? "ok" : "cancelled");
  vs_reach("end");
}
