// Stands in for the repository's copy of Intel's tbb::parallel_do (include/mods/parallel_do.h is built
// on tbb::task, which oneTBB no longer has).  Same interface, on top of oneTBB's parallel_for_each/feeder.
#pragma once
#define __TBB_parallel_do_H
#ifdef VT_MINITBB
#include "../minitbb/minitbb.h"
#else
#include <iterator>
#include <vector>
#include <type_traits>
#include <tbb/parallel_for_each.h>
#include <tbb/task_group.h>
#include <tbb/spin_mutex.h>
namespace tbb {
template<typename Item> using parallel_do_feeder = feeder<Item>;
namespace vshim {
template<typename T> struct arg2;
template<typename B, typename A, typename I> struct arg2<void (B::*)(A, feeder<I>&) const> { typedef I item; };
}
template<typename Range, typename Body>
void parallel_do(Range &&rng, const Body &body) {
    typedef typename vshim::arg2<decltype(&Body::operator())>::item Item;
    // like the original for input iterators: items are copied out before the body runs on them
    std::vector<Item> items;
    for (auto it = rng.begin(); it != rng.end(); ++it) items.push_back(*it);
    tbb::parallel_for_each(items.begin(), items.end(), [&body](const Item &i, feeder<Item> &f) { body(i, f); });
}
}
#endif
