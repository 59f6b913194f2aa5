// Common runtime of every driver: case bookkeeping, violation reporting, evidence counters.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vt {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

struct Rng { // splitmix64; independent of the library under test
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    Rng(uint64_t a, uint64_t b) : s(mix(mix(a) ^ (b * 0x9e3779b97f4a7c15ULL))) {}
    Rng(uint64_t a, uint64_t b, uint64_t c) : s(mix(mix(mix(a) ^ (b * 0x9e3779b97f4a7c15ULL)) ^ (c * 0xda942042e4dd58b5ULL))) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { if (hi < lo) { fprintf(stderr, "HARNESS: empty range\n"); abort(); } return lo + below(hi - lo + 1); } // inclusive
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    double unit() { return (next() >> 11) * 0x1.0p-53; }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    double normal() {
        double u1 = (double)((next() >> 11) + 1) * 0x1.0p-53, u2 = unit();
        return __builtin_sqrt(-2 * __builtin_log(u1)) * __builtin_cos(6.283185307179586 * u2);
    }
    template <class C> const typename C::value_type &pick(const C &c) { return c[below(c.size())]; }
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }

inline std::string esc(const std::string &s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 0x20) o += ' ';
        else o += c;
    }
    return o;
}

class Ctx {
public:
    uint64_t seed = 1;
    bool thorough = false;
    long onlyCase = -1;
    long caseFrom = 0, caseTo = -1; // shard
    int shard = 0, shards = 1;
    std::map<std::string, std::string> opts;

    static Ctx &get() { static Ctx c; return c; }

    void init(int argc, char **argv) {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
            else if (a == "--thorough") thorough = true;
            else if (a == "--case") onlyCase = atol(val().c_str());
            else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%d/%d", &shard, &shards); }
            else if (a == "--out") out = fopen(val().c_str(), "a");
            else if (a.rfind("--", 0) == 0) { std::string k = a.substr(2); opts[k] = val(); }
        }
        if (!out) out = stdout;
        if (const char *m = getenv("VT_MAXSEC")) maxSec = atol(m);
        setvbuf(out, nullptr, _IOLBF, 1 << 16);
    }
    bool runs(long c) const {
        if (onlyCase >= 0) return c == onlyCase;
        if ((c % shards) != shard) return false;
        if (maxSec > 0 && std::chrono::steady_clock::now() - t0 > std::chrono::seconds(maxSec)) { ++skipped; return false; } // a slow machine: fewer cases
        return true;
    }
    std::string opt(const std::string &k, const std::string &d = "") const {
        auto it = opts.find(k); return it == opts.end() ? d : it->second;
    }
    // a case starts: what follows belongs to it
    void begin(long c, const std::string &desc) {
        std::lock_guard<std::mutex> l(mtx);
        curCase = c; curDesc = desc;
        fprintf(out, "B %ld %s\n", c, esc(desc).c_str());
        fflush(out);
        ++evaluations;
    }
    void eval(uint64_t n = 1) { evaluations += n; }
    // the case was distinct/non-trivial; h identifies what was observed
    void nontrivial(uint64_t h) { std::lock_guard<std::mutex> l(mtx); distinct.insert(h); }
    void count(const std::string &k, uint64_t n = 1) { std::lock_guard<std::mutex> l(mtx); counters[k] += n; }
    void maxi(const std::string &k, uint64_t n) { std::lock_guard<std::mutex> l(mtx); auto &x = maxima[k]; if (n > x) x = n; }
    void sample(const std::string &s) {
        std::lock_guard<std::mutex> l(mtx);
        if (samples < 6) { ++samples; fprintf(out, "S %s\n", esc(s).c_str()); }
    }
    // key: stable identifier of what fails (matched against known findings)
    void violation(const std::string &key, const std::string &msg) {
        std::lock_guard<std::mutex> l(mtx);
        ++violations;
        if (++perKey[key] <= 3)
            fprintf(out, "V %s | case=%ld %s | %s\n", esc(key).c_str(), curCase, esc(curDesc).c_str(), esc(msg).c_str());
        fflush(out);
    }
    // a listed known finding was reproduced
    int finish() {
        std::lock_guard<std::mutex> l(mtx);
        if (skipped) counters["cases_skipped_for_time"] += skipped;
        for (auto &c : counters) fprintf(out, "C %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
        for (auto &c : maxima) fprintf(out, "M %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
        for (auto h : distinct) fprintf(out, "H %016llx\n", (unsigned long long)h);
        fprintf(out, "E %llu\n", (unsigned long long)evaluations.load());
        fprintf(out, "DONE %llu\n", (unsigned long long)violations);
        fflush(out);
        return 0;
    }
    long currentCase() const { return curCase; }

private:
    FILE *out = nullptr;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    long maxSec = 0;
    mutable uint64_t skipped = 0;
    std::mutex mtx;
    std::atomic<uint64_t> evaluations{0};
    uint64_t violations = 0;
    int samples = 0;
    long curCase = -1;
    std::string curDesc;
    std::map<std::string, uint64_t> counters, maxima, perKey;
    std::unordered_set<uint64_t> distinct;
};

inline Ctx &ctx() { return Ctx::get(); }

// run one case body; exceptions out of the code under test are violations
inline void guarded(const std::string &keyPrefix, const std::function<void()> &f) {
    try { f(); }
    catch (const std::exception &e) { ctx().violation(keyPrefix + ":exception", std::string("exception escaped: ") + e.what()); }
    catch (...) { ctx().violation(keyPrefix + ":exception", "unknown exception escaped"); }
}

template <class... A> std::string str(const A &... a) {
    std::ostringstream o; o.precision(17);
    (void)std::initializer_list<int>{((o << a), 0)...};
    return o.str();
}

#define VT_CHECK(key, cond, ...) do { if (!(cond)) vt::ctx().violation(key, vt::str(__VA_ARGS__)); } while (0)

} // namespace vt
