// Asynchronous preemption: a chaos thread interrupts registered workers at arbitrary instructions and lets them sleep.
#pragma once
#include <atomic>
#include <csignal>
#include <pthread.h>
#include <thread>
#include <time.h>
#include <vector>
#include "vt.h"

namespace chaos {
inline std::atomic<uint64_t> &ticks() { static std::atomic<uint64_t> t{0}; return t; }
inline void handler(int) {
    static std::atomic<uint64_t> g{0};
    uint64_t n = g.fetch_add(1, std::memory_order_relaxed);
    ticks().fetch_add(1, std::memory_order_relaxed);
    uint64_t x = vt::mix(n);
    if (x % 4 == 0) { timespec t{0, (long)(x >> 8) % 200000}; nanosleep(&t, nullptr); }
    else for (volatile uint64_t i = 0; i < (x >> 8) % 20000; ++i) {}
}
struct Chaos { // interrupts the given threads until destroyed
    std::atomic<bool> stop{false};
    std::vector<pthread_t> victims;
    std::thread t;
    static void install() {
        struct sigaction sa {};
        sa.sa_handler = handler;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGUSR2, &sa, nullptr);
    }
    Chaos(std::vector<std::thread> &w, uint64_t seed, bool on) {
#ifndef VT_TSAN
        if (!on) return;
        install();
        for (auto &x : w) victims.push_back(x.native_handle());
        t = std::thread([this, seed] {
            vt::Rng r(seed);
            while (!stop.load()) {
                pthread_kill(victims[r.below(victims.size())], SIGUSR2);
                timespec d{0, (long)r.below(30000)};
                if (r.chance(1, 3)) nanosleep(&d, nullptr);
            }
        });
#endif
    }
    // must be called before the workers are joined (they wait for release)
    void end() { stop.store(true); if (t.joinable()) t.join(); }
    ~Chaos() { end(); }
};
} // namespace chaos
