// C22: text and number utilities, progress display, terminal colors, system queries, text forms of geometric types.
#include "Geometry.h"
#include "Partitioner.h"
#include "utils/CSV.h"
#include "utils/Misc.h"
#include "utils/ProgressDisplay.h"
#include "utils/StringUtils.h"
#include "utils/System.h"
#include "utils/ASSERT.h"
#include "vt.h"
#include "conc.h"
#include <list>
#include <set>
#include <unistd.h>
#include <sys/mman.h>
#include <ctime>
using namespace vt;

static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool refInt(const std::string &s) { size_t i = s.size() && (s[0] == '+' || s[0] == '-'); if (i == s.size()) return false; for (; i < s.size(); ++i) if (!dig(s[i])) return false; return true; }
static bool refFloat(const std::string &s) {
    size_t i = 0, n = s.size(), d = 0;
    if (i < n && (s[i] == '+' || s[i] == '-')) ++i;
    while (i < n && dig(s[i])) { ++i; ++d; }
    if (i < n && s[i] == '.') { ++i; while (i < n && dig(s[i])) { ++i; ++d; } }
    if (!d) return false;
    if (i < n && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < n && (s[i] == '+' || s[i] == '-')) ++i; size_t e = 0; while (i < n && dig(s[i])) { ++i; ++e; } if (!e) return false; }
    return i == n;
}

static void numbers(Rng &r) {
    std::string s;
    switch (r.below(4)) {
    case 0: { static const std::string a = "0123456789+-.eE"; for (int n = r.range(0, 7); n > 0; --n) s += a[r.below(a.size())]; break; }
    case 1: { static const std::string a = "01+-.eE xf,*/:\n"; for (int n = r.range(0, 5); n > 0; --n) s += a[r.below(a.size())]; break; }
    case 2: { std::ostringstream o; o.precision(r.range(1, 17)); if (r.chance(1, 3)) o << std::scientific; o << (r.unit() - .5) * std::pow(10.0, double(r.range(0, 40)) - 20); s = o.str(); break; }
    default: s = (r.chance(1, 3) ? "+" : r.chance(1, 2) ? "-" : "") + std::to_string(r.next() >> r.below(64)); if (r.chance(1, 4)) s.insert(r.below(s.size() + 1), 1, " .-ae"[r.below(5)]);
    }
    bool i = is_int(s), f = is_float(s);
    VT_CHECK("util:is_int", i == refInt(s), "is_int('", s, "') is ", i);
    VT_CHECK("util:is_float", f == refFloat(s), "is_float('", s, "') is ", f);
    if (i) ctx().count("ints"); if (f) ctx().count("floats");
    ctx().nontrivial(fnv(s));
}

template <class T> void misc(Rng &r) {
    const unsigned B = sizeof(T) * 8;
    T x = T(r.next() >> r.below(64)); if (r.chance(1, 3)) { x = T(T(1) << r.below(B)); x = T(x + T(r.range(0, 2)) - 1); }
    unsigned pc = 0; int top = -1; for (unsigned b = 0; b < B; ++b) if (x >> b & 1) { ++pc; top = b; }
    VT_CHECK("util:popcount", popcount<T>(x) == pc, "popcount(", uint64_t(x), ") is ", uint64_t(popcount<T>(x)), ", ", B, " bits");
    VT_CHECK("util:isPow2", bool(isPow2<T>(x)) == (pc == 1), "isPow2(", uint64_t(x), ")");
    if (x) VT_CHECK("util:log2", ::log2<T>(x) == T(top), "log2(", uint64_t(x), ") is ", uint64_t(::log2<T>(x)));
    if (x <= (T(1) << (B - 1))) {
        T want = 1; while (want < x) want = T(want << 1);
        VT_CHECK("util:nextPow2", nextPow2<T>(x) == want, "nextPow2(", uint64_t(x), ") is ", uint64_t(nextPow2<T>(x)), ", ", B, " bits");
    }
    T k = T(1) << r.range(1, std::min(7u, B - 1)); // base, a power of two
    if (x) { T want = 0; for (T y = x; y >= k; y = T(y / k)) ++want; VT_CHECK("util:logN", (logN<T>(x, k)) == want, "logN(", uint64_t(x), ",", uint64_t(k), ") is ", uint64_t(logN<T>(x, k))); }
    T n = T(r.range(2, 20)), p = 1; for (int e = r.below(8); e > 0 && p <= T(~T(0)) / n; --e) p = T(p * n);
    VT_CHECK("util:isPowN", (bool(isPowN<T>(p, n))), uint64_t(p), " is a power of ", uint64_t(n));
    if (x % n && x != 1) VT_CHECK("util:isPowN", (!isPowN<T>(x, n)), uint64_t(x), " is no power of ", uint64_t(n));
    ctx().nontrivial(uint64_t(x) * 31 + B);
}

template <class C> void splitting(Rng &r) {
    static const std::string a = "ab,; \n";
    std::string s; for (int n = r.range(0, 12); n > 0; --n) s += a[r.below(a.size())];
    char d = a[2 + r.below(4)];
    std::vector<std::string> want(1), none;
    for (char c : s) { if (c == d) want.emplace_back(); else want.back() += c; }
    for (auto &w : want) if (!w.empty()) none.push_back(w);
    C got{"old", "content"}, got2{"old"};
    C &ref = split(got, s, d);
    split(got2, s, d, split::no_empties);
    VT_CHECK("util:split", &ref == &got, "split returns another container");
    VT_CHECK("util:split", std::vector<std::string>(got.begin(), got.end()) == want, "'", s, "' splits into ", got.size(), " fields at '", d, "' instead of ", want.size());
    VT_CHECK("util:split", std::vector<std::string>(got2.begin(), got2.end()) == none, "'", s, "' splits into ", got2.size(), " non-empty fields at '", d, "' instead of ", none.size());
    ctx().nontrivial(fnv(s) + d);
}

static void csv(Rng &r) {
    int a = int(r.next()); std::string b = str("x", r.below(1000)); double c = double(r.below(1000)) / 8; unsigned long d = r.next();
    auto J = [](std::initializer_list<std::string> l) { std::string s; for (auto &x : l) s += (s.empty() ? "" : " ") + x; return s; };
    std::ostringstream cs; cs << c;
    VT_CHECK("util:csv", CSV::csv(a) == std::to_string(a), "csv of one value: '", CSV::csv(a), "'");
    VT_CHECK("util:csv", CSV::csv(a, b) == J({std::to_string(a), b}), "csv of two values: '", CSV::csv(a, b), "'");
    VT_CHECK("util:csv", CSV::csv(c, d, b) == J({cs.str(), std::to_string(d), b}), "csv: '", CSV::csv(c, d, b), "'");
    VT_CHECK("util:csv", CSV::csv(b, a, d, c, a) == J({b, std::to_string(a), std::to_string(d), cs.str(), std::to_string(a)}), "csv: '", CSV::csv(b, a, d, c, a), "'");
    VT_CHECK("util:csv", CSV::csv() == "", "csv of nothing: '", CSV::csv(), "'");
    VT_CHECK("util:csv", double(CSV::nsToMs(1e6L)) == 1.0 && double(CSV::sToNs(2)) == 2e9, "unit conversions");
    // assertions
    int n = 0; std::string what;
    try { FASSERT(++n == 2); } catch (const AssertionException &e) { what = e.what(); }
    VT_CHECK("util:assert", n == 1 && what.find("util.cpp:") != std::string::npos && what.find("++n == 2") != std::string::npos, "failed assertion: '", what, "', evaluated ", n, " times");
    try { FASSERT(++n == 2); } catch (...) { ctx().violation("util:assert", "a true assertion throws"); }
    int at = r.below(10), fg = r.below(10), bg = r.below(10);
    VT_CHECK("util:color", zkr::cc::color(at, fg, bg) == str("\033[", at, ";", 30 + fg, ";", 40 + bg, "m"), "color command '", zkr::cc::color(at, fg, bg) + 1, "'");
    ctx().nontrivial(uint64_t(a) * 31 + d);
}

static void system_(Rng &r) {
    char h[256] = {}; gethostname(h, 255);
    VT_CHECK("util:system", getHostname() == h, "host name '", getHostname(), "'");
    time_t t0 = time(nullptr); std::string dt = getDatetime(); time_t t1 = time(nullptr);
    std::tm tm = {}; const char *e = strptime(dt.c_str(), "%Y-%m-%d %H:%M:%S", &tm); tm.tm_isdst = -1; time_t t = mktime(&tm);
    VT_CHECK("util:system", e && !*e && t >= t0 && t <= t1, "date '", dt, "'");
    size_t mb = r.range(8, 64);
    size_t p0 = getPeakRSS(), c0 = getCurrentRSS();
    char *v = (char *)mmap(nullptr, mb << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (size_t i = 0; i < mb << 20; i += 1024) v[i] = char(i);
    size_t p1 = getPeakRSS(), c1 = getCurrentRSS();
    munmap(v, mb << 20);
    VT_CHECK("util:system", p1 >= p0 && p0 && c0, "peak memory went from ", p0, " to ", p1);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    VT_CHECK("util:system", c1 >= c0 + (mb << 20) * 3 / 4 && c1 <= c0 + (mb << 20) * 5 / 4 + (8 << 20), "current memory went from ", c0, " to ", c1, " for ", mb, " MB");
    VT_CHECK("util:system", p1 + (4 << 20) >= c1, "peak ", p1, " below current ", c1);
#endif
    (void)c1;
    ctx().nontrivial(mb);
}

template <uint D, typename P> void texts(Rng &r) {
    auto num = [&]() { return P(r.chance(1, 2) ? int(r.below(2001)) - 1000 : (r.unit() - .5) * 2e6); };
    auto out = [](const auto &x) { std::ostringstream o; o << x; return o.str(); };
    auto same = [](const std::string &got, const std::string &want) { VT_CHECK("util:text", got == want, "'", got, "' instead of '", want, "'"); };
    auto vec = [&](auto &v) { std::string s = "["; for (uint d = 0; d < D; ++d) s += (d ? ", " : "") + out(v[d]); return s + "]"; };
    dVector<D, P> v; for (auto &x : v) x = num();
    same(to_string(v), vec(v)); same(out(v), vec(v));
    dPoint<D, P> p; for (auto &x : p.coords) x = num();
    same(to_string(p), vec(p.coords)); same(out(p), vec(p.coords));
    dBox<D, P> b; for (uint d = 0; d < D; ++d) { b.low[d] = num(); b.high[d] = num(); }
    std::string bs = "["; for (uint d = 0; d < D; ++d) bs += (d ? ", " : "") + out(b.low[d]) + " - " + out(b.high[d]); bs += "]";
    same(to_string(b), bs); same(out(b), bs);
    dSphere<D, P> sp; for (auto &x : sp.center) x = num(); sp.radius = num();
    same(to_string(sp), "O = " + vec(sp.center) + " - r = " + out(sp.radius)); same(out(sp), to_string(sp));
    dSimplex<D, P> s; s.id = r.next() >> 20; std::string vs, ns;
    for (uint d = 0; d <= D; ++d) { s.vertices[d] = r.below(1000); s.neighbors[d] = r.chance(1, 4) ? ~tIdType(0) : tIdType(r.below(1000)); vs += (d ? ", " : "") + out(s.vertices[d]); ns += (d ? ", " : "") + out(s.neighbors[d]); }
    std::string ss = out(s.id) + ": V = [" + vs + "] N = [" + ns + "]";
    same(to_string(s), ss); same(out(s), ss);
    dPointStats<D, P> st; for (uint d = 0; d < D; ++d) { st.min[d] = num(); st.mid[d] = num(); st.max[d] = num(); }
    std::string ps = "min: " + vec(st.min) + " mid: " + vec(st.mid) + " max: " + vec(st.max);
    same(to_string(st), ps); same(out(st), ps);
    int n = r.below(8);
    Partition<D, P> part(16); part.id = r.below(100); part.bounds = b; std::set<tIdType> ids;
    for (int i = 0; i < n; ++i) { tIdType id = r.range(1, 1000); if (ids.insert(id).second) part.points.insert(id); }
    std::string got = to_string(part), head = out(part.id) + " " + bs + " [";
    std::set<tIdType> seen; bool ok = got.compare(0, head.size(), head) == 0 && got.back() == ']'; size_t cnt = 0;
    if (ok) { std::string body = got.substr(head.size(), got.size() - head.size() - 1); size_t i = 0; while (i < body.size()) { size_t j = body.find(", ", i); if (j == std::string::npos) j = body.size(); seen.insert(strtoull(body.substr(i, j - i).c_str(), 0, 10)); ++cnt; i = j + 2; } }
    VT_CHECK("util:text", ok && seen == ids && cnt == ids.size(), "partition with ", ids.size(), " points: '", got, "'");
    same(out(part), got);
    ctx().nontrivial(fnv(ss + bs));
}

static const std::string SCALE = "0%   10   20   30   40   50   60   70   80   90   100%\n", BAR = "|----|----|----|----|----|----|----|----|----|----|";

static void progress(Rng &r, bool conc, bool ch) {
    static const std::vector<std::string> strs = {"", "\n", "> ", "abc\n"};
    std::string s1 = r.pick(strs), s2 = r.pick(strs), s3 = r.pick(strs);
    auto total = [&]() -> unsigned long { return r.chance(1, 3) ? r.range(1, 60) : r.chance(1, 8) ? r.range(1, 1UL << r.range(1, 50)) : r.range(1, conc ? 3000 : 100000); };
    std::ostringstream o;
    unsigned long E = r.chance(1, 30) ? 0 : total();
    ProgressDisplay p(E, o, s1, s2, s3);
    int rounds = r.range(1, 3); uint64_t h = 0;
    for (int k = 0; k < rounds; ++k) {
        if (k) { o.str(""); E = total(); p.restart(E); }
        std::string head = s1 + SCALE + s2 + BAR + "\n" + s3;
        VT_CHECK("util:progress", o.str() == head, "the scale is '", o.str(), "'");
        unsigned long exp = E ? E : 1;
        VT_CHECK("util:progress", p.count() == 0 && p.expected_count() == exp, "count ", p.count(), " of ", p.expected_count(), " after the start with ", E);
        int T = conc ? r.range(2, 8) : 1;
        // increments adding up to the expected count
        std::vector<unsigned long> inc; unsigned long left = exp; int maxN = conc ? 400 : 3000;
        unsigned long step = r.chance(1, 2) ? 1 : r.range(1, std::max<unsigned long>(1, exp / r.range(1, 80)));
        while (left) { unsigned long x = int(inc.size()) >= maxN ? left : std::min(left, r.chance(1, 4) ? r.range(1, step) : step); inc.push_back(x); left -= x; }
        for (size_t i = inc.size(); i > 1; --i) std::swap(inc[i - 1], inc[r.below(i)]);
        std::vector<std::vector<std::pair<unsigned long, unsigned long>>> ret(T); // (count returned, increment)
        if (!conc) {
            unsigned long c = 0; size_t last = 0;
            for (auto x : inc) {
                unsigned long before = c; c += x;
                unsigned long got = x == 1 && r.chance(1, 2) ? ++p : (p += x);
                if (got != c || p.count() != c) { ctx().violation("util:progress", str("returned ", got, " with count ", p.count(), ", the total is ", c)); return; }
                size_t stars = o.str().size() - head.size();
                double frac = double(c) / exp * 50;
                if (stars < last || (c < exp && (double(stars) + 1e-6 < std::floor(frac) || stars > frac + 2 + 50.0 / exp))) { ctx().violation("util:progress", str(stars, " of 51 marks (", last, " before) at ", c, " of ", exp, ", before ", before)); return; }
                last = stars;
            }
        } else {
            uint64_t seed = r.next();
            parallel(T, seed, ch, [&](int t) {
                for (size_t i = t; i < inc.size(); i += T) {
                    unsigned long got = inc[i] == 1 && (i & 8) ? ++p : (p += inc[i]);
                    ret[t].push_back({got, inc[i]});
                    if (p.count() < got) ctx().violation("util:progress", str("count ", p.count(), " below ", got));
                    if (ch && (i & 31) == 7) std::this_thread::yield();
                }
            });
            // the counts returned belong to one order of the increments
            std::vector<std::pair<unsigned long, unsigned long>> v; for (auto &x : ret) { for (size_t i = 1; i < x.size(); ++i) if (x[i].first <= x[i - 1].first) ctx().violation("util:progress", "a thread saw the count fall"); v.insert(v.end(), x.begin(), x.end()); }
            std::sort(v.begin(), v.end()); unsigned long c = 0;
            for (auto &x : v) { c += x.second; if (x.first != c) { ctx().violation("util:progress", str("increment by ", x.second, " returned ", x.first, ", the increments before and this one add up to ", c)); return; } }
            ctx().count("concurrent_increments", v.size());
        }
        VT_CHECK("util:progress", p.count() == exp, "count ", p.count(), " after increments by ", exp);
        VT_CHECK("util:progress", o.str() == head + std::string(51, '*') + "\n", "after ", exp, " of ", exp, " the display shows '", o.str().substr(std::min(o.str().size(), head.size())), "'");
        h = h * 31 + exp * 7 + inc.size();
    }
    ctx().nontrivial(h + fnv(s1 + s2 + s3));
}

int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    long reps = atol(C.opt("reps", "2000").c_str());
    std::string part = C.opt("part", "seq");
    for (long c = 0; c < reps; ++c) {
        if (!C.runs(c)) continue;
        Rng r(C.seed, c, 220 + (part == "seq"));
        int k = r.below(100);
        const char *name = part == "conc" ? "progress" : k < 40 ? "numbers" : k < 60 ? "misc" : k < 70 ? "split" : k < 75 ? "csv" : k < 90 ? "text" : k < 98 ? "progress" : "system";
        C.begin(c, name);
        C.count(name);
        guarded("util", [&] {
            if (part == "conc") progress(r, true, r.chance(3, 4));
            else if (k < 40) for (int i = 0; i < 10; ++i) numbers(r);
            else if (k < 60) switch (r.below(4)) { case 0: misc<unsigned char>(r); break; case 1: misc<unsigned short>(r); break; case 2: misc<unsigned>(r); break; default: misc<unsigned long>(r); }
            else if (k < 70) { if (r.chance(1, 2)) splitting<std::vector<std::string>>(r); else splitting<std::list<std::string>>(r); }
            else if (k < 75) csv(r);
            else if (k < 90) switch (r.below(4)) { case 0: texts<2, float>(r); break; case 1: texts<2, double>(r); break; case 2: texts<3, float>(r); break; default: texts<3, double>(r); }
            else if (k < 98) progress(r, false, false);
            else system_(r);
        });
    }
    return C.finish();
}
