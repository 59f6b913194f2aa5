// compiled without sanitizers
#include "minitbb.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <stdlib.h>
extern "C" void __tsan_acquire(void *) __attribute__((weak));
extern "C" void __tsan_release(void *) __attribute__((weak));
namespace minitbb {
namespace {
constexpr int CAP = 1 << 17;
Task *queue[CAP];
int count = 0, active = 1, isolate = 0, delays = 0, workers = 0;
int lockw = 0;
uint64_t seed = 1, epoch = 0, nRun = 0, nStolen = 0, nNested = 0;
thread_local uint64_t state = 0, myEpoch = 0;
thread_local int self = 0, depth = 0;
void lock() { for (int i = 0; __atomic_exchange_n(&lockw, 1, __ATOMIC_ACQUIRE); ++i) if (i > 50) { sched_yield(); i = 0; } }
void unlock() { __atomic_store_n(&lockw, 0, __ATOMIC_RELEASE); }
uint64_t mixs(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
Task *pop(Group *own) {
    if (!__atomic_load_n(&count, __ATOMIC_RELAXED)) return nullptr;
    Task *t = nullptr;
    lock();
    if (count) {
        if (own && isolate) { // only tasks of the group waited for
            int s = rnd() % count;
            for (int k = 0; k < count && !t; ++k) { int i = (s + k) % count; if (queue[i]->g == own) { t = queue[i]; queue[i] = queue[--count]; } }
        } else { int i = rnd() % count; t = queue[i]; queue[i] = queue[--count]; }
    }
    unlock();
    return t;
}
void nap(long ns) { timespec d{0, ns}; nanosleep(&d, nullptr); }
void exec(Task *t, Group *waiting) {
    Group *g = t->g;
    if (__tsan_acquire) __tsan_acquire(t);
    __atomic_fetch_add(&nRun, 1, __ATOMIC_RELAXED);
    if (waiting && waiting != g) __atomic_fetch_add(&nStolen, 1, __ATOMIC_RELAXED);
    if (depth) __atomic_fetch_add(&nNested, 1, __ATOMIC_RELAXED);
    if (delays && rnd() % 8 == 0) nap(rnd() % (rnd() % 16 ? 20000 : 400000));
    ++depth;
    if (!__atomic_load_n(&g->failed, __ATOMIC_ACQUIRE)) {
        try { t->run(); }
        catch (...) { if (!__atomic_exchange_n(&g->failed, 1, __ATOMIC_ACQ_REL)) g->error = std::current_exception(); }
    }
    --depth;
    delete t;
    if (delays && rnd() % 8 == 0) nap(rnd() % 20000);
    if (__tsan_release) __tsan_release(g);
    __atomic_fetch_sub(&g->left, 1, __ATOMIC_ACQ_REL);
}
void *worker(void *p) {
    self = (int)(intptr_t)p;
    int idle = 0;
    for (;;) {
        Task *t = self < __atomic_load_n(&active, __ATOMIC_RELAXED) ? pop(nullptr) : nullptr;
        if (t) { exec(t, nullptr); idle = 0; }
        else if (++idle < 20) sched_yield();
        else nap(idle < 200 ? 20000 : 200000);
    }
    return nullptr;
}
}
uint64_t rnd() {
    uint64_t e = __atomic_load_n(&epoch, __ATOMIC_RELAXED);
    if (myEpoch != e || !state) { myEpoch = e; state = mixs(seed * 1000003 + self * 7919 + 1) | 1; }
    state ^= state << 13; state ^= state >> 7; state ^= state << 17;
    return mixs(state);
}
void configure(int threads, uint64_t s, int iso, int del) {
    seed = s; __atomic_fetch_add(&epoch, 1, __ATOMIC_RELAXED);
    isolate = iso; delays = del;
    while (workers + 1 < threads) {
        pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 64 << 20); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
        pthread_create(&t, &a, worker, (void *)(intptr_t)(++workers));
    }
    __atomic_store_n(&active, threads, __ATOMIC_RELAXED);
}
void spawn(Group &g, Task *t) {
    t->g = &g;
    __atomic_fetch_add(&g.left, 1, __ATOMIC_ACQ_REL);
    if (__tsan_release) __tsan_release(t);
    lock();
    bool full = count == CAP;
    if (!full) queue[count++] = t;
    unlock();
    if (full) exec(t, &g);
}
void wait(Group &g) {
    for (int i = 0; __atomic_load_n(&g.left, __ATOMIC_ACQUIRE);) {
        if (Task *t = pop(&g)) { exec(t, &g); i = 0; }
        else if (++i > 20) { nap(5000); }
        else sched_yield();
    }
    if (__tsan_acquire) __tsan_acquire(&g);
    if (g.failed) std::rethrow_exception(g.error);
}
void maybeDelay() { if (delays && rnd() % 4 == 0) nap(rnd() % 50000); }
bool cancelled(Group &g) { return __atomic_load_n(&g.failed, __ATOMIC_ACQUIRE); }
uint64_t tasksRun() { return __atomic_load_n(&nRun, __ATOMIC_RELAXED); }
uint64_t stolen() { return __atomic_load_n(&nStolen, __ATOMIC_RELAXED); }
uint64_t nested() { return __atomic_load_n(&nNested, __ATOMIC_RELAXED); }
}
// tbbmalloc recycles memory behind ThreadSanitizer's back; use malloc instead
namespace tbb { namespace detail { namespace r1 {
void *cache_aligned_allocate(std::size_t n) { void *p = nullptr; if (posix_memalign(&p, 128, n ? n : 1)) abort(); return p; }
void cache_aligned_deallocate(void *p) { free(p); }
} } }
