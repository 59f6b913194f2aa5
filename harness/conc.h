// Concurrent workload helpers: barrier-started workers under injected preemption, global tickets for histories.
#pragma once
#include <thread>
#include "vt.h"
#include "chaos.h"
using namespace vt;

// run worker bodies concurrently: start barrier, chaos, hold until chaos ends
template <class F> inline void parallel(int T, uint64_t seed, bool ch, F f) {
    std::atomic<int> ready{0}, done{0};
    std::atomic<bool> go{false}, release{false};
    std::vector<std::thread> th;
    for (int t = 0; t < T; ++t)
        th.emplace_back([&, t] {
            ready.fetch_add(1);
            while (!go.load()) {}
            try { f(t); }
            catch (const std::exception &e) { ctx().violation("hc:exception", str("exception escaped: ", e.what())); }
            done.fetch_add(1);
            while (!release.load()) std::this_thread::yield();
        });
    while (ready.load() != T) std::this_thread::yield();
    {
        chaos::Chaos c(th, seed, ch);
        go.store(true);
        while (done.load() != T) std::this_thread::yield();
        c.end();
    }
    release.store(true);
    for (auto &x : th) x.join();
}

