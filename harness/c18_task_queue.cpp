// BOUND: one thread: every program of up to 5 operations {push, push a chain of 1-3 nodes (either overload), pop_all, pop_all_not_empty}; threads: 1-2 producers with up to 2-3 operations and 1-2 consumers, every interleaving
// BOUND: up to 2 spurious wake-ups of the condition variable
// BOUND: one thread: 6 pushes (single nodes and chains of up to 5) with pops in between
// @must_compile
#include "pre.h"
#include <kelcoro/thread_pool.hpp>
using namespace dd;
struct Node : task_node {
  int owner = -1, seq = -1;
  int64_t payload = 0;
};
constexpr int NT = 3, NODES = 8;
static Node nodes[NT][NODES];
static int64_t sent[NT][NODES];
static ghost popped[NT][NODES], begun[NT][NODES], ended[NT][NODES], handed[NT];
static ghost now_;
static std::coroutine_handle<> some = std::noop_coroutine();
static Node* fresh(int t, int i) {
  Node* x = &nodes[t][i];
  x->owner = t;
  x->seq = i;
  x->payload = sent[t][i];
  x->task = some;
  begun[t][i] = ++now_;
  return x;
}
// one push operation of 1-3 nodes
static void put(task_queue& q, int t, int& n, int len, bool both) {
  Node *f = nullptr, *l = nullptr;
  int from = n;
  for (int i = 0; i < len; ++i) {
    Node* x = fresh(t, n++);
    x->next = nullptr;
    if (l) l->next = x;
    else f = x;
    l = x;
  }
  if (len == 1 && !both) {
    f->next = (task_node*)0x10;   // push ignores what was there
    q.push(f);
  } else if (both)
    q.push_list(f, l);
  else
    q.push_list(f);
  for (int i = from; i < n; ++i) ended[t][i] = ++now_;
}
struct Consumer {
  int last[NT] = {-1, -1, -1};
  int total = 0;
  int64_t max_begin = 0;     // latest begin among the nodes already received by this consumer
  void chain(task_node* top) {
    int count = 0;
    for (task_node* p = top; p; p = p->next) {
      Node* x = static_cast<Node*>(p);
      VS_ASSERTM(++count <= NT * NODES, "the chain is terminated");
      VS_ASSERT(x->owner >= 0 && x->owner < NT && x == &nodes[x->owner][x->seq]);
      VS_ASSERTM(x->payload == sent[x->owner][x->seq] && x->task == some, "the consumer sees the node as it was pushed");
      VS_ASSERTM(++popped[x->owner][x->seq] == 1, "a node is handed out once");
      VS_ASSERTM(x->seq > last[x->owner], "pushes of one thread keep their order");
      last[x->owner] = x->seq;
      int64_t e = ended[x->owner][x->seq];
      VS_ASSERTM(!e || e > max_begin, "a push that ended before another began comes out first");
      if (begun[x->owner][x->seq] > max_begin) max_begin = begun[x->owner][x->seq];
      ++handed[x->owner];
      ++total;
    }
  }
};
static void values() {
  for (int t = 0; t < NT; ++t)
    for (int i = 0; i < NODES; ++i) sent[t][i] = 0x1000 * t + i;
}
VS_ENTRY(tq_seq) {  // @reach=end
  for (int i = 0; i < NODES; ++i) sent[0][i] = (int64_t)vs_sym("payload", 64);
  task_queue q;
  Consumer c;
  int n = 0, taken = 0;
  VS_ASSERT(!q.pop_all());
  int ops = 4;
#ifdef VS_THOROUGH
  ops = 6;
#endif
  for (int i = 0; i < ops; ++i) {
    switch (vs_choice("op", 6)) {
      case 0: put(q, 0, n, 1, false); break;
      case 1: if (n + 3 <= NODES) put(q, 0, n, 2 + vs_choice("len", 2), false); break;
      case 2: if (n + 2 <= NODES) put(q, 0, n, 1 + vs_choice("len", 2), true); break;
      case 3: {
        task_node* t = q.pop_all();
        VS_ASSERTM(!!t == (c.total != n), "pop_all takes what is there");
        c.chain(t);
        VS_ASSERTM(c.total == n, "everything present is taken");
        break;
      }
      case 4:
        if (c.total != n) {
          task_node* t = q.pop_all_not_empty();
          VS_ASSERT(t);
          c.chain(t);
          VS_ASSERTM(c.total == n, "everything present is taken");
        }
        break;
      case 5: q.push_list(nullptr); break;
    }
    if (n >= NODES) break;
  }
  c.chain(q.pop_all());
  VS_ASSERT(c.total == n);
  vs_reach("end");
}
// producers: '1' one node, '2' a chain of two by its head, '3' a chain of two by its ends, '4' attach
static int produce(task_queue& q, int t, const char* prog) {
  int n = 0;
  for (; *prog; ++prog) {
    char k = *prog;
    if (k == '?') k = "123"[vs_choice("put", 3)];
    if (k == '4') {
      Node* x = fresh(t, n++);
      q.attach(x);
      ended[t][n - 1] = ++now_;
    } else
      put(q, t, n, k == '1' ? 1 : 2, k == '3');
  }
  return n;
}
// two producers, one consumer that blocks until it has everything
static void many(const char* p1, const char* p2, int spurious) {
  values();
  vsrt_spurious_wakes(spurious);
  static ghost total, fin;
  {
    task_queue q;
    std::thread a([&] { total += produce(q, 1, p1); ++fin; });
    std::optional<std::thread> b;
    if (p2) b.emplace([&] { total += produce(q, 2, p2); ++fin; });
    Consumer c;
    int k = p2 ? 2 : 1;
    // blocks for everything that must still come
    int least = (p1[1] ? 2 : 1) + (p2 ? (p2[1] ? 2 : 1) : 0);
    while (c.total < least) {
      task_node* t = q.pop_all_not_empty();
      VS_ASSERTM(t, "never returns without a node");
      c.chain(t);
    }
    a.join();
    if (b) b->join();
    VS_ASSERT(fin == k);
    c.chain(q.pop_all());
    VS_ASSERTM(c.total == total, "no node is lost");
    VS_ASSERT(!q.pop_all());
  }
  vs_reach("end");
}
VS_ENTRY(tq_one_producer) { many("??", nullptr, 1); }     // @reach=end
VS_ENTRY(tq_two_producers) { many("?", "?", 1); }         // @reach=end
VS_ENTRY(tq_two_producers2) { many("13", "24", 1); }      // @reach=end
VS_ENTRY(tq_two_producers_any) { many("??", "?4", 2); }   // @thorough @reach=end @ttime=800
// two blocking consumers share what comes: a node for each, the second only after the first was taken
VS_ENTRY(tq_two_consumers) {  // @reach=end
  values();
  vsrt_spurious_wakes(1);
  static int first_taken;
  static ghost takes;
  {
    task_queue q;
    auto take = [&] {
      Consumer c;
      task_node* t = q.pop_all_not_empty();
      VS_ASSERTM(t, "never returns without a node");
      c.chain(t);
      ++takes;
      vsg_signal(&first_taken);
    };
    std::thread a(take), b(take);
    int n = 0;
    put(q, 0, n, 1 + vs_choice("len", 2), false);
    vsg_await(&first_taken);
    put(q, 0, n, 1, false);
    a.join();
    b.join();
    VS_ASSERT(takes == 2 && handed[0] == n);
    VS_ASSERT(!q.pop_all());
  }
  vs_reach("end");
}
// two consumers waiting, two nodes pushed at once: a consumer is only blocked while nothing is queued
VS_ENTRY(tq_two_consumers_blocked) {  // @reach=end,left
  values();
  vs_allow_blocked();
  vs_allow_leaks();
  static ghost takes;
  static task_queue q;
  auto take = [&] {
    Consumer c;
    task_node* t = q.pop_all_not_empty();
    VS_ASSERTM(t, "never returns without a node");
    c.chain(t);
    ++takes;
  };
  std::thread a(take), b(take);
  static int got_both;
  std::thread p([&] {
    int n = 0;
    put(q, 0, n, 1, false);
    put(q, 0, n, 1, false);
  });
  p.join();
  vs_reach("end");
  task_node* t = q.pop_all();
  if (!t) vs_reach("left");
  int n = 2;
  (void)got_both;
  if (t) {
    Consumer c;
    c.chain(t);
    put(q, 0, n, 1, false);
  }
  a.detach();
  b.detach();
}
// a consumer that never blocks beside a blocking one
VS_ENTRY(tq_pop_all_beside) {  // @reach=end,stolen
  values();
  static ghost taken;
  {
    task_queue q;
    std::thread a([&] {
      Consumer c;
      task_node* t = q.pop_all_not_empty();
      VS_ASSERT(t);
      c.chain(t);
    });
    std::thread b([&] {
      Consumer c;
      c.chain(q.pop_all());
      taken = c.total;
    });
    int n = 0;
    put(q, 0, n, 1, false);
    put(q, 0, n, 2, true);
    b.join();
    if (taken) vs_reach("stolen");
    put(q, 0, n, 1, false);     // wakes the blocked one if all was stolen
    a.join();
    Consumer c;
    c.chain(q.pop_all());
    VS_ASSERTM(handed[0] == n, "nothing is lost");
  }
  vs_reach("end");
}
// many pushes and one slow consumer: every push made while it was away comes out, in order
VS_ENTRY(tq_consumer_loop) {  // @reach=end
  values();
  vsrt_spurious_wakes(2);
  {
    task_queue q;
    std::thread a([&] {
      Consumer c;
      while (c.total < 4) c.chain(q.pop_all_not_empty());
    });
    int n = 0;
    put(q, 0, n, 1, false);
    put(q, 0, n, 2, vs_choice("ends", 2));
    put(q, 0, n, 1, false);
    a.join();
    VS_ASSERT(handed[0] == 4 && !q.pop_all());
  }
  vs_reach("end");
}

// longer queues, one thread: first in, first out across pushes of every length
VS_ENTRY(tq_long) {  // @reach=end
  values();
  task_queue q;
  Consumer c;
  int n[2] = {0, 0};
  bool both = vs_choice("both", 2);
  for (int i = 0; i < 6; ++i) {
    int t = i & 1;
    put(q, t, n[t], i % 3 == 0 ? 1 : 1 + vs_choice("len", 5 - n[t] > 2 ? 3 : 1), both);
    if (i % 2 && vs_choice("pop", 2)) {
      c.chain(vs_choice("blocking", 2) && c.total != n[0] + n[1] ? q.pop_all_not_empty() : q.pop_all());
      VS_ASSERTM(c.total == n[0] + n[1], "everything present is taken");
    }
  }
  c.chain(q.pop_all());
  VS_ASSERTM(c.total == n[0] + n[1] && !q.pop_all(), "everything present is taken");
  vs_reach("end");
}
// the consumer destroys the queue as soon as it has the node, while the producer may still be on its way out of push
VS_ENTRY(tq_dies_under_producer) {  // @reach=end
  values();
  vsrt_spurious_wakes(1);
  bool wait = vs_choice("wait", 2);
  int len = 1 + vs_choice("len", 2);
  bool both = vs_choice("both", 2);
  {
    task_queue* q = new task_queue;
    std::thread a([=] {
      int n = 0;
      put(*q, 0, n, len, both);
    });
    Consumer c;
    if (wait) c.chain(q->pop_all_not_empty());
    else
      while (c.total < len) {
        c.chain(q->pop_all());
        vs_yield();
      }
    VS_ASSERT(c.total == len);
    delete q;
    a.join();
  }
  vs_reach("end");
}
