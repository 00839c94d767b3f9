// BOUND: 2 threads with up to 3 operations, 3 threads with up to 2 operations each, of {push, push a chain of 1-2 nodes, pop all, pop all and push the chain back}, every interleaving, up to 2 spurious failures of weak compare-exchange
// BOUND: node payload values symbolic; final pop by the main thread
// BOUND: one thread: up to 18 nodes pushed one by one and in chains of up to 6
// @must_compile
#include "pre.h"
#include <kelcoro/nonowner_lockfree_stack.hpp>
using namespace dd;
struct Node {
  Node* next = nullptr;
  int owner = -1, seq = -1;
  int64_t payload = 0;      // plain data written before the push
};
constexpr int NT = 3, NODES = 6;
static Node nodes[NT][NODES];
static int64_t sent[NT][NODES];
static ghost pushed[NT][NODES], popped[NT][NODES];
static nonowner_lockfree_stack<Node> s;
static Node* fresh(int t, int& n) {
  Node* x = &nodes[t][n];
  x->owner = t;
  x->seq = n;
  x->payload = sent[t][n];
  x->next = (Node*)0x10;    // whatever was in it
  ++pushed[t][n];
  ++n;
  return x;
}
// checks one chain returned by pop all
static void check_chain(Node* top) {
  int last[NT] = {NODES, NODES, NODES};
  int count = 0;
  for (Node* x = top; x; x = x->next) {
    VS_ASSERTM(++count <= NT * NODES, "the chain is terminated");
    VS_ASSERT(x->owner >= 0 && x->owner < NT && x == &nodes[x->owner][x->seq]);
    VS_ASSERTM(x->payload == sent[x->owner][x->seq], "the popper sees what was written before the push");
    VS_ASSERTM(pushed[x->owner][x->seq] == popped[x->owner][x->seq] + 1, "a node is returned once per push");
    ++popped[x->owner][x->seq];
    VS_ASSERTM(x->seq < last[x->owner], "nodes of one thread come newest first");
    last[x->owner] = x->seq;
  }
}
// one operation: 'a' push, 'p' pop all, 'c' push a chain of one or two, '?' any of them
static void op(char k, int t, int& n) {
  if (k == '?') k = "apc"[vs_choice("op", 3)];
  switch (k) {
    case 'a': s.push(fresh(t, n)); break;
    case 'p': check_chain(s.try_pop_all()); break;
    case 'c': {
      Node* a = fresh(t, n);
      a->next = nullptr;
      if (vs_choice("chain2", 2)) {
        Node* b = fresh(t, n);
        b->next = a;       // newest first, like a chain from another stack
        a = b;
      }
      s.push_stack(a);
      break;
    }
  }
}
static void worker(int t, const char* prog) {
  int n = 0;
  for (; *prog; ++prog) op(*prog, t, n);
}
static void run(const char* p0, const char* p1, const char* p2 = nullptr) {
  for (int t = 0; t < NT; ++t)
    for (int i = 0; i < NODES; ++i) sent[t][i] = (int64_t)vs_sym("payload", 64);
  {
    std::thread a([=] { worker(1, p1); });
    std::optional<std::thread> b;
    if (p2) b.emplace([=] { worker(2, p2); });
    worker(0, p0);
    a.join();
    if (b) b->join();
  }
  check_chain(s.try_pop_all());
  VS_ASSERTM(!s.try_pop_all(), "empty after pop all");
  for (int t = 0; t < NT; ++t)
    for (int i = 0; i < NODES; ++i) VS_ASSERTM(pushed[t][i] == popped[t][i], "no node is lost");
  vs_reach("end");
}
VS_ENTRY(stack_two) { run("??", "??"); }               // @reach=end
VS_ENTRY(stack_two_long) { run("aa?", "p?p"); }        // @reach=end
VS_ENTRY(stack_three) { run("a?", "?", "?p"); }        // @reach=end
VS_ENTRY(stack_three_push) { run("aa", "aa", "pp"); }  // @reach=end
VS_ENTRY(stack_three_chain) { run("ac", "ca", "pp"); } // @reach=end
VS_ENTRY(stack_two3) { run("???", "???"); }            // @thorough @reach=end @ttime=800
VS_ENTRY(stack_three2) { run("??", "??", "?p"); }      // @thorough @reach=end @ttime=800
VS_ENTRY(stack_weak) {                                 // @reach=end @traces=0
  vsrt_weak_cas_failures(2);
  run("a?", "?c");
}
// a chain popped and pushed back keeps its nodes (order between the re-pushed chain and new nodes is free)
static void repush(int t) {
  int n = 0;
  s.push(fresh(t, n));
  Node* c = s.try_pop_all();
  for (Node* x = c; x; x = x->next) ++popped[x->owner][x->seq];
  for (Node* x = c; x; x = x->next) ++pushed[x->owner][x->seq];
  s.push_stack(c);
  if (vs_choice("more", 2)) s.push(fresh(t, n));
}
VS_ENTRY(stack_repush) {  // @reach=end
  {
    std::thread a([] { repush(1); });
    repush(0);
    a.join();
  }
  int cnt = 0;
  for (Node* x = s.try_pop_all(); x; x = x->next) {
    VS_ASSERT(++cnt <= NT * NODES);
    ++popped[x->owner][x->seq];
  }
  for (int t = 0; t < NT; ++t)
    for (int i = 0; i < NODES; ++i) VS_ASSERTM(pushed[t][i] == popped[t][i], "no node is lost or returned twice");
  vs_reach("end");
}
VS_ENTRY(stack_empty) {
  VS_ASSERT(!s.try_pop_all());
  s.push_stack(nullptr);
  VS_ASSERT(!s.try_pop_all());
  int n = 0;
  Node* a = fresh(0, n);
  s.push(a);
  s.push_stack(nullptr);
  check_chain(s.try_pop_all());
  VS_ASSERT(popped[0][0] == 1);
}

// exact order of longer stacks, one thread
VS_ENTRY(stack_long) {  // @reach=end
  for (int t = 0; t < NT; ++t)
    for (int i = 0; i < NODES; ++i) sent[t][i] = (int64_t)vs_sym("payload", 64);
  Node* order[NT * NODES];
  int n = 0;
  for (int t = 0; t < NT; ++t) {
    int k = 0, chain = vs_choice("chain", NODES + 1);
    Node* top = nullptr;
    for (int i = 0; i < chain; ++i) {       // newest first
      Node* x = fresh(t, k);
      order[n++] = x;
      x->next = top;
      top = x;
    }
    s.push_stack(top);
    while (k < NODES && t < 2) {
      order[n++] = &nodes[t][k];
      s.push(fresh(t, k));
    }
  }
  Node* x = s.try_pop_all();
  while (n) {
    VS_ASSERTM(x == order[--n], "last in, first out");
    VS_ASSERT(x->payload == sent[x->owner][x->seq]);
    x = x->next;
  }
  VS_ASSERTM(!x && !s.try_pop_all(), "nothing else is in it");
  vs_reach("end");
}
