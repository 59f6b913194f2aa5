// A small stand-in for oneTBB's scheduler (parallel_for, parallel_do, parallel_sort): random chunking, random task
// order, random delays, waiting threads steal any (or only their own) tasks.  The pool itself is compiled without
// ThreadSanitizer and announces exactly the fork and join edges to it, so it hides no race of the code it runs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <exception>
#include <utility>
#include <type_traits>
#include <vector>
#include <tbb/blocked_range.h>
namespace minitbb {
struct Group { long left = 0; int failed = 0; std::exception_ptr error; };
struct Task { Group *g = nullptr; virtual void run() = 0; virtual ~Task() {} };
void configure(int threads, uint64_t seed, int isolate, int delays);
void spawn(Group &g, Task *t);
void wait(Group &g);           // rethrows the first exception
bool cancelled(Group &g);
uint64_t rnd();
void maybeDelay();
uint64_t tasksRun(); uint64_t stolen(); uint64_t nested();
template <class F> struct FTask : Task { F f; FTask(F &&x) : f(std::move(x)) {} void run() override { f(); } };
template <class F> void go(Group &g, F f) { spawn(g, new FTask<F>(std::move(f))); }
}
namespace tbb {
namespace vmini {
// like TBB's: a task splits its range lazily, while other tasks already work on the parts split off
template <typename R, typename B> void chunk(minitbb::Group &g, R r, const B &body, size_t budget) {
    while (budget > 1 && r.is_divisible() && minitbb::rnd() % 8) {
        tbb::split s;
        R right(r, s);
        size_t h = budget / 2;
        auto *gp = &g; auto *bp = &body;
        minitbb::go(g, [gp, right, bp, h] { chunk(*gp, right, *bp, h); });
        minitbb::maybeDelay();
        budget -= h;
    }
    const B &bd = body;
    bd(r);
}
}
template <typename R, typename B> void parallel_for(const R &range, const B &body) {
    if (range.empty()) return;
    minitbb::Group g;
    auto *gp = &g; auto *bp = &body;
    size_t budget = 1 + minitbb::rnd() % (minitbb::rnd() % 4 ? 8 : 64);
    minitbb::go(g, [gp, range, bp, budget] { vmini::chunk(*gp, range, *bp, budget); });
    minitbb::wait(g);
}
template <typename R, typename B, typename P, typename = std::enable_if_t<!std::is_integral<R>::value>> void parallel_for(const R &range, const B &body, const P &) { parallel_for(range, body); }
template <typename I, typename J, typename F, std::enable_if_t<std::is_integral<I>::value && std::is_integral<J>::value, int> = 0>
void parallel_for(I first, J last, const F &f) {
    if (!((J)first < last)) return;
    parallel_for(tbb::blocked_range<J>((J)first, last), [&f](const tbb::blocked_range<J> &r) { for (J i = r.begin(); i != r.end(); ++i) f(i); });
}
template <typename Item> struct parallel_do_feeder {
    virtual void add(const Item &i) const = 0;
    virtual ~parallel_do_feeder() {}
};
namespace vmini {
template <typename T> struct arg2;
template <typename B, typename A, typename I> struct arg2<void (B::*)(A, parallel_do_feeder<I> &) const> { typedef I item; };
template <typename Item, typename Body> struct Feeder : parallel_do_feeder<Item> {
    minitbb::Group &g; const Body &b;
    Feeder(minitbb::Group &g_, const Body &b_) : g(g_), b(b_) {}
    void add(const Item &i) const override { auto &gg = g; auto &bb = b; minitbb::go(gg, [i, &gg, &bb] { Feeder f(gg, bb); bb(i, f); }); }
};
}
template <typename Range, typename Body> void parallel_do(Range &&rng, const Body &body) {
    typedef typename vmini::arg2<decltype(&Body::operator())>::item Item;
    std::vector<Item> items;
    for (auto it = rng.begin(); it != rng.end(); ++it) items.push_back(*it);
    if (items.empty()) return;
    minitbb::Group g;
    vmini::Feeder<Item, Body> f(g, body);
    for (auto &i : items) f.add(i);
    minitbb::wait(g);
}
}
