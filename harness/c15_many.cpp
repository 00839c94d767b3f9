// BOUND: 140 events without value, two orders of notification
#include "seq.h"
#include <kelcoro/events.hpp>
using namespace dd;
static int resumed[2], which;
// more events than fit in 7 bits
static event<void> many_ev[140];
template <size_t... Is> static Co all140(std::index_sequence<Is...>) {
  (void)co_await when_all(many_ev[Is]...);
  ++resumed[0];
}
template <size_t... Is> static Co any140(std::index_sequence<Is...>) {
  auto v = co_await when_any(many_ev[Is]...);
  which = (int)v.index();
  ++resumed[1];
}
VS_ENTRY(when_many) {  // @reach=all,any
  if (vs_choice("what", 2)) {
    all140(std::make_index_sequence<140>{});
    int from = vs_choice("from", 2) ? 0 : 130;
    for (int k = 0; k < 140; ++k) {
      VS_ASSERTM(resumed[0] == 0, "resumed after every one of them");
      many_ev[(from + k) % 140].notify_all(this_thread_executor);
    }
    VS_ASSERTM(resumed[0] == 1, "resumed exactly once");
    vs_reach("all");
  } else {
    any140(std::make_index_sequence<140>{});
    int from = vs_choice("from", 2) ? 139 : 130;
    for (int k = 0; k < 140; ++k) {
      many_ev[(from + k) % 140].notify_all(this_thread_executor);
      VS_ASSERTM(resumed[1] == 1 && which == from, "resumed once by the first");
    }
    vs_reach("any");
  }
}
