// @must_compile
// BOUND: two channels, iterators before and after advancing
#include "seq.h"
#include <kelcoro/channel.hpp>
using namespace dd;
static channel<int> ones(int n) {
  for (int i = 0; i < n; ++i) co_yield int(i);
}
static bool ok;
static Co run(channel<int>& a, channel<int>& b) {
  auto i = co_await a.begin();
  auto j = co_await b.begin();
  VS_ASSERTM(&i.owner() == &a && &j.owner() == &b, "an iterator's owner is its channel");
  co_await ++i;
  VS_ASSERT(&i.owner() == &a);
  ok = true;
}
VS_ENTRY(chan_owner) {
  auto a = ones(2), b = ones(2);
  run(a, b);
  VS_ASSERT(ok);
}
