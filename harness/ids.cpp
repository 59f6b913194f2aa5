// C16: index handlers (the ids of cells inside the base triangulation data structures)
#include "Geometry.h"
#include "utils/IndexHandler.h"
#include "conc.h"
#include <map>

template <class H> void sequential(Rng &r) {
    tIdType start = r.chance(1, 2) ? 0 : r.below(1000);
    std::unique_ptr<H> hp(r.chance(1, 3) ? (start = 0, new H()) : new H(start));
    H &h = *hp;
    std::set<tIdType> live, freed, ever; // handed out now, given back, seen at all
    bool enabled = true;
    uint64_t dig = 0;
    for (int k = 0, K = r.range(1, 400); k < K; ++k) {
        int op = r.below(100);
        if (op < 55 || live.empty()) {
            tIdType before = h.maxId();
            tIdType id = h.getId();
            if (live.count(id)) ctx().violation("ids:live", str("id ", id, " was handed out although it is in use"));
            bool fresh = !ever.count(id);
            if (fresh) {
                if (id < start || id != start + ever.size()) ctx().violation("ids:dense", str("fresh id ", id, " but ", ever.size(), " ids from ", start, " were used so far"));
                if (!freed.empty()) ctx().violation("ids:reuse", str("fresh id ", id, " although ", freed.size(), " ids had been released"));
            } else if (!freed.count(id)) ctx().violation("ids:released", str("id ", id, " was reused without having been released"));
            if (h.maxId() != start + ever.size() + fresh) ctx().violation("ids:max", str("maxId ", h.maxId(), " after ", before, ", but ids up to ", start + ever.size() + fresh, " were used"));
            freed.erase(id); live.insert(id); ever.insert(id);
            dig = dig * 31 + id;
        } else if (op < 98) {
            auto it = live.begin(); std::advance(it, r.below(live.size()));
            h.releaseId(*it);
            if (enabled) freed.insert(*it); // after disabling ids never come back
            live.erase(it);
        } else if (op == 99 && r.chance(1, 3)) { h.disable(); enabled = false; }
    }
    ctx().count("ids_used", ever.size());
    ctx().nontrivial(dig);
}

void concurrent(Rng &r, bool ch) {
    int T = r.range(2, 8), K = r.range(50, 1500), hold = r.range(1, 40);
    tIdType start = r.below(100);
    _detail::Concurrent_IndexHandler h(start);
    size_t cap = start + size_t(T) * (hold + 1) + 64 + size_t(T) * K; // more ids than operations never exist
    std::unique_ptr<std::atomic<int>[]> owner(new std::atomic<int>[cap]);
    for (size_t i = 0; i < cap; ++i) owner[i].store(0, std::memory_order_relaxed);
    std::vector<std::vector<tIdType>> left(T);
    std::atomic<tIdType> maxSeen{0};
    std::atomic<size_t> reused{0};
    uint64_t seed = r.next();
    parallel(T, seed, ch, [&](int t) {
        Rng q(seed, t, 3);
        std::vector<tIdType> &mine = left[t];
        tIdType lastMax = 0;
        for (int k = 0; k < K; ++k) {
            if (mine.empty() || ((int)mine.size() < hold && q.chance(1, 2))) {
                tIdType id = h.getId();
                if (id < start || id >= cap) { ctx().violation("ids:range", str("id ", id, " starting from ", start)); continue; }
                int was = owner[id].exchange(t + 1, std::memory_order_relaxed);
                if (was > 0) ctx().violation("ids:live", str("id ", id, " was handed out to two threads at once"));
                if (was < 0) reused.fetch_add(1, std::memory_order_relaxed);
                mine.push_back(id);
                tIdType m = h.maxId();
                if (m <= id) ctx().violation("ids:max", str("maxId ", m, " not above id ", id));
                if (m < lastMax) ctx().violation("ids:max", str("maxId went from ", lastMax, " back to ", m));
                lastMax = m;
            } else {
                size_t i = q.below(mine.size());
                tIdType id = mine[i]; mine[i] = mine.back(); mine.pop_back();
                owner[id].store(-1, std::memory_order_relaxed);
                h.releaseId(id);
            }
            if (ch && q.chance(1, 50)) std::this_thread::yield();
        }
        tIdType m = maxSeen.load(); while (m < lastMax && !maxSeen.compare_exchange_weak(m, lastMax)) {}
    });
    // conservation: every id below maxId is either held by someone or comes back exactly once
    std::set<tIdType> held;
    for (auto &v : left) for (auto id : v) if (!held.insert(id).second) ctx().violation("ids:live", str("id ", id, " is held twice in the end"));
    tIdType top = h.maxId();
    // at the time a fresh id is drawn all others are in use, up to T operations under way
    if (top - start > tIdType(T) * (hold + 2)) ctx().violation("ids:reuse", str("ids up to ", top - start, " although at most ", T * hold, " were in use at once"));
    size_t freeN = top - start - held.size();
    std::set<tIdType> back;
    for (size_t i = 0; i < freeN; ++i) {
        tIdType id = h.getId();
        if (id >= top || held.count(id) || !back.insert(id).second) { ctx().violation("ids:lost", str("after ", i, " of ", freeN, " released ids came back, id ", id, " was handed out (", held.size(), " held, maxId ", top, ")")); return; }
    }
    if (h.getId() != top) ctx().violation("ids:lost", str("all released ids are in use again, but the next id is not ", top));
    ctx().count("concurrent_ids", top - start);
    ctx().count("concurrent_reuses", reused.load());
    uint64_t dig = top; for (auto id : held) dig = dig * 31 + id;
    ctx().nontrivial(dig);
}

int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    long reps = atol(C.opt("reps", "2000").c_str());
    std::string part = C.opt("part", "seq");
    for (long c = 0; c < reps; ++c) {
        if (!C.runs(c)) continue;
        Rng r(C.seed, c, 160 + (part == "seq"));
        C.begin(c, part);
        guarded("ids", [&] {
            if (part == "seq") { if (c % 2) sequential<_detail::IndexHandler>(r); else sequential<_detail::Concurrent_IndexHandler>(r); }
            else concurrent(r, r.chance(3, 4));
        });
    }
    return C.finish();
}
