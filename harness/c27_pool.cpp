// BOUND: pools of 0-4 workers that do nothing, and of 1-2 real workers with 1-2 (quick) / 3 (thorough) scheduled functions (small, large and 16-aligned captures) run, cancelled or failing to be allocated; given, default and replaced default resource; two pools side by side; one failing allocation or thread creation at any point
// @must_compile
#include "seq.h"
#include <kelcoro/thread_pool.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int OPS = 6, FUNS = 3;
#else
constexpr int OPS = 4, FUNS = 2;
#endif
#include "c27_res.h"
// ---------- pools
static void idle(task_queue&) {}
static void arrays_from(thread_pool& p, Res& r) {
  vs_assert(&p.get_resource() == &r, "the pool reports its resource");
  vs_assert(r.owns(p.queues_range().data()) && r.owns(p.workers_range().data()), "the arrays are in the resource of the pool");
}
VS_ENTRY(pool_arrays) {  // @reach=end
  int n = vs_choice("n", 5), how = vs_choice("how", 3);
  if (how == 2) std::pmr::set_default_resource(&rb);
  {
    if (how == 0) {
      thread_pool p(n, idle, ra);
      arrays_from(p, ra);
      vs_assert(rb.allocs == 0, "no other resource is used");
    } else if (how == 1) {
      thread_pool p(n, idle);
      vs_assert(&p.get_resource() == std::pmr::get_default_resource() && ra.allocs == 0 && rb.allocs == 0, "without a resource the default one is used");
    } else {
      thread_pool p(n, idle);
      std::pmr::set_default_resource(&ra);       // later changes do not matter
      arrays_from(p, rb);
      vs_assert(ra.allocs == 0, "no other resource is used");
    }
  }
  vs_assert(ra.blocks == 0 && rb.blocks == 0 && vs_heap_live() == 0, "everything is given back");
  std::pmr::set_default_resource(nullptr);
  vs_reach("end");
}
VS_ENTRY(pool_construction_fault) {  // @reach=failed,made
  int n = 1 + vs_choice("n", 3), what = vs_choice("what", 4);
  if (what < 2) ra.fail_at = what;
  if (what == 2) vsrt_thread_faults(1);
  if (what == 3) vsrt_alloc_faults(1);
  bool failed = false;
  try {
    thread_pool p(n, idle, ra);
    vsrt_thread_faults(0);
    vsrt_alloc_faults(0);
    arrays_from(p, ra);
  } catch (std::bad_alloc&) {
    failed = true;
  } catch (std::exception&) {
    failed = true;
  } catch (...) {
    failed = true;
  }
  vsrt_thread_faults(0);
  vsrt_alloc_faults(0);
  vs_assert(what > 1 || failed, "a failing resource makes the construction fail");
  vs_assert(ra.blocks == 0 && vs_heap_live() == 0, "everything is given back");
  vs_reach(failed ? "failed" : "made");
}
// functions scheduled through the pool
static ghost ran, captured;
static int done_sig[4];
template <int Size, int Al> struct Fun {
  alignas(Al) char pad[Size];
  int i;
  Res* r;
  explicit Fun(int i, Res* r) : i(i), r(r) { ++captured; for (char& c : pad) c = (char)(i + 1); }
  Fun(const Fun& o) : i(o.i), r(o.r) { ++captured; for (int k = 0; k < Size; k++) pad[k] = o.pad[k]; }
  ~Fun() { --captured; }
  void operator()() const {
    for (char c : pad) vs_assert(c == (char)(i + 1), "the function is intact");
    vs_assert(((uint64_t)this & (Al - 1)) == 0, "the function is aligned");
    if (r) vs_assert(r->owns(this), "the frame is in the resource of the pool");
    ++ran;
    vsg_signal(&done_sig[i]);
  }
};
static void put(thread_pool& p, int kind, int i, Res* r, size_t h) {
  if (kind == 0) p.schedule(Fun<1, 1>(i, r), h);
  else if (kind == 1) p.schedule(Fun<90, 1>(i, r), h);
  else {
    Fun<16, 16> f(i, r);
    if (kind == 2) p.schedule(f, h);
    else p.schedule(std::as_const(f), h);
  }
}
VS_ENTRY(pool_frames) {  // @reach=end,cancelled @time=300
  int n = 1 + vs_choice("n", 2);
  int mode = vs_choice("mode", 3);
  bool wait = mode == 1;
  int64_t k = 0;
  {
    thread_pool p(n, default_worker_job, ra);
    for (int i = 0; i < FUNS; i++) {
      if (mode == 2 && i == FUNS - 1) p.request_stop();
      int64_t before = ra.allocs;
      put(p, vs_choice("kind", 4), i, &ra, (size_t)i);
      vs_assert(ra.allocs == before + 1, "the frame comes from the resource of the pool");
      ++k;
    }
    if (wait)
      for (int i = 0; i < FUNS; i++) vsg_await(&done_sig[i]);
  }
  if (ran < k) vs_reach("cancelled");
  vs_assert(!wait || ran == k, "each function ran");
  vs_assert(captured == 0, "each function is destroyed");
  vs_assert(ra.blocks == 0 && rb.allocs == 0 && vs_heap_live() == 0, "everything is given back to the resource it came from");
  vs_reach("end");
}
// two pools side by side, each with its own resource; one schedules on the other
VS_ENTRY(pool_two) {  // @reach=end @time=300 @preempt=2 @tpreempt=3
  {
    thread_pool p(1, default_worker_job, ra), q(1, default_worker_job, rb);
    put(q, 1, 0, &rb, 0);
    p.schedule([&q] { put(q, 0, 1, &rb, 5); vsg_signal(&done_sig[2]); }, 3);
    vs_assert(ra.allocs == 3, "the frame comes from the resource of the pool");
    vsg_await(&done_sig[2]);
    vs_assert(rb.allocs == 4, "the frame comes from the resource of the pool");
    vsg_await(&done_sig[1]);
  }
  vs_assert(captured == 0 && ran == 2, "each function is destroyed");
  vs_assert(ra.blocks == 0 && rb.blocks == 0 && vs_heap_live() == 0, "everything is given back to the resource it came from");
  vs_reach("end");
}
VS_ENTRY(pool_default_frames) {  // @reach=end
  std::pmr::set_default_resource(&rb);
  {
    thread_pool p(1);
    put(p, vs_choice("kind", 4), 0, &rb, 0);
    std::pmr::set_default_resource(&ra);
    put(p, 0, 1, &rb, 0);
    vs_assert(ra.allocs == 0 && rb.allocs == 4, "the pool keeps its resource");
    vsg_await(&done_sig[0]);
  }
  std::pmr::set_default_resource(nullptr);
  vs_assert(captured == 0 && rb.blocks == 0 && vs_heap_live() == 0, "everything is given back");
  vs_reach("end");
}
VS_ENTRY(pool_frame_fault) {  // @reach=end,failed
  bool failed = false;
  {
    thread_pool p(1, default_worker_job, ra);
    put(p, 0, 0, &ra, 0);
    ra.fail_at = 3;
    try {
      put(p, vs_choice("kind", 4), 1, &ra, 0);
    } catch (std::bad_alloc&) {
      failed = true;
    }
    ra.fail_at = -1;
    vs_assert(failed, "a failing resource makes schedule fail");
    put(p, 1, 2, &ra, 0);
    if (vs_choice("wait", 2)) vsg_await(&done_sig[2]);
  }
  vs_assert(captured == 0 && ran <= 2, "each function is destroyed, the failed one never runs");
  vs_assert(ra.blocks == 0 && vs_heap_live() == 0, "everything is given back");
  if (failed) vs_reach("failed");
  vs_reach("end");
}
