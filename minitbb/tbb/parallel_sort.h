#pragma once
#include <algorithm>
#include "../minitbb.h"
namespace tbb {
template <typename It, typename C> void parallel_sort(It b, It e, const C &c) {
    auto n = e - b;
    if (n < 16) { std::sort(b, e, c); return; }
    It m = b + (n / 4 + minitbb::rnd() % (n / 2));
    minitbb::Group g;
    minitbb::go(g, [=] { parallel_sort(b, m, c); });
    minitbb::go(g, [=] { parallel_sort(m, e, c); });
    minitbb::wait(g);
    std::inplace_merge(b, m, e, c);
}
template <typename It> void parallel_sort(It b, It e) { parallel_sort(b, e, std::less<typename std::iterator_traits<It>::value_type>()); }
}
