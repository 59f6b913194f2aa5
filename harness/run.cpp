// C19: experiment runs (traits, measurements, counters) and the profiler.
#include "utils/Timings.h"
#include "utils/System.h"
#include "vt.h"
#include "conc.h"
#include <set>
using namespace vt;

static const std::set<std::string> IGNORED = {"git-rev", "start-time", "end-time", "run-number", "host"};

static std::string word(Rng &r, const std::string &alphabet, int lo, int hi) {
    std::string s; for (int n = r.range(lo, hi); n > 0; --n) s += alphabet[r.below(alphabet.size())]; return s;
}

struct Model {
    std::map<std::string, std::string> traits;
    std::map<std::string, std::vector<unsigned long>> meas;
    std::map<std::string, unsigned long> cnt;
};

static void compare(const ExperimentRun &run, const Model &m, const char *when) {
    std::string k = std::string("run:") + when;
    VT_CHECK(k, run.traits() == m.traits, "the traits are ", run.str(), " instead of ", m.traits.size(), " others");
    for (auto &t : m.traits) {
        VT_CHECK(k, run.hasTrait(t.first), "trait '", t.first, "' is missing");
        if (run.hasTrait(t.first)) VT_CHECK(k, run.getTrait(t.first) == t.second, "trait '", t.first, "' is '", run.getTrait(t.first), "' instead of '", t.second, "'");
    }
    size_t nm = 0; for (auto &x : run.measurements()) { (void)x; ++nm; }
    VT_CHECK(k, nm == m.meas.size(), nm, " measurements instead of ", m.meas.size());
    for (auto &x : m.meas) {
        if (!run.measurements().count(x.first)) { ctx().violation(k, str("measurement ", x.first, " is missing")); continue; }
        auto &v = run.measurements(x.first);
        std::vector<unsigned long> got(v.begin(), v.end());
        VT_CHECK(k, got == x.second, "measurements '", x.first, "': ", got.size(), " values instead of ", x.second.size(), " or other values");
        unsigned long sum = 0; for (auto y : x.second) sum += y;
        VT_CHECK(k, run.avgMeasurement(x.first) == sum / x.second.size(), "average of '", x.first, "' is ", run.avgMeasurement(x.first), " instead of ", sum / x.second.size());
    }
    size_t nc = 0; for (auto &x : run.counters()) { (void)x; ++nc; }
    VT_CHECK(k, nc == m.cnt.size(), nc, " counters instead of ", m.cnt.size());
    for (auto &x : m.cnt) {
        if (!run.counters().count(x.first)) { ctx().violation(k, str("counter ", x.first, " is missing")); continue; }
        VT_CHECK(k, run.counter(x.first) == x.second, "counter '", x.first, "' is ", (unsigned long)run.counter(x.first), " instead of ", x.second);
    }
}

static std::map<std::string, std::string> relevant(const std::map<std::string, std::string> &m) {
    std::map<std::string, std::string> o; for (auto &t : m) if (!IGNORED.count(t.first)) o.insert(t); return o;
}

template <class T> void typed(ExperimentRun &run, Model &m, const std::string &n, const T &v, bool upd) {
    std::ostringstream ss; ss << v;
    bool had = run.hasTrait(n);
    if (upd) { run.updateTrait(n, v); m.traits[n] = ss.str(); }
    else { run.addTrait(n, v); m.traits.emplace(n, ss.str()); }
    if (upd || !had) VT_CHECK("run:typed", run.template getTrait<T>(n) == v, "trait ", n, " set to ", v, " reads as ", run.template getTrait<T>(n));
}

static void sequential(Rng &r) {
    static const std::vector<std::string> tseps = {"   ", ";", "\n", ", ", "||", "\t"}, iseps = {": ", "=", "->", " = ", ":="};
    // neither names nor values contain characters of the separators
    std::string ts = r.pick(tseps), is = r.pick(iseps);
    std::string alphabet;
    for (char c : std::string("abcXYZ0189._-+/ \t|:;=>,\n#\"\\{}é")) if (ts.find(c) == std::string::npos && is.find(c) == std::string::npos) alphabet += c;
    ExperimentRun run; Model m;
    VT_CHECK("run:new", run.getTrait("host") == getHostname() && run.hasTrait("git-rev") && run.traits().size() == 2, "a new run has the traits ", run.str());
    m.traits = run.traits();
    std::vector<std::string> names;
    for (int i = r.range(1, 12); i > 0; --i) names.push_back(word(r, alphabet, r.chance(1, 10) ? 0 : 1, 8));
    if (r.chance(1, 2)) for (auto &n : IGNORED) if (r.chance(1, 2) && (ts + is).find('-') == std::string::npos) names.push_back(n);
    int ops = r.range(0, 60);
    for (int i = 0; i < ops; ++i) {
        std::string n = r.pick(names);
        bool upd = r.chance(1, 2);
        switch (r.below(9)) {
        case 0: typed<int>(run, m, n, int(r.next()), upd); break;
        case 1: typed<unsigned long>(run, m, n, r.next(), upd); break;
        case 2: typed<bool>(run, m, n, r.chance(1, 2), upd); break;
        case 3: typed<double>(run, m, n, double(int(r.below(2000)) - 1000) / 8, upd); break;
        case 4: { std::string v = word(r, alphabet, 0, 12); if (upd) { run.updateTrait(n, v); m.traits[n] = v; } else { run.addTrait(n, v); m.traits.emplace(n, v); } break; }
        case 5: { unsigned long v = r.below(1000000); run.addMeasurement(n, v); m.meas[n].push_back(v); break; }
        case 6: { unsigned long v = r.below(1000); run.incCounter(n, v); m.cnt[n] += v; break; }
        case 7: run.incCounter(n); m.cnt[n] += 1; break;
        default: {
            PROFILER.setRun(r.chance(1, 4) ? nullptr : &run); // without a run nothing happens
            bool on = r.chance(1, 2);
            PROFILER.setRun(on ? &run : nullptr);
            unsigned long v = r.below(1000);
            if (r.chance(1, 2)) { PROFILER.addMeasurement(n, v); if (on) m.meas[n].push_back(v); }
            else { PROFILER.incCounter(n, v); if (on) m.cnt[n] += v; }
            PROFILER.setRun(nullptr);
        }
        }
    }
    compare(run, m, "state");
    // text form: every trait, in order of the names
    std::string want, sep;
    for (auto &t : m.traits) { want += sep + t.first + is + t.second; sep = ts; }
    VT_CHECK("run:str", run.str(ts, is) == want, "str is '", run.str(ts, is), "' instead of '", want, "'");
    { std::ostringstream o; o << run; VT_CHECK("run:str", o.str() == run.str(), "operator<< differs from str()"); }
    // and back
    ExperimentRun back(run.str(ts, is), ts, is);
    VT_CHECK("run:roundtrip", relevant(back.traits()) == relevant(m.traits), "reading '", run.str(ts, is), "' gives '", back.str(ts, is), "'");
    VT_CHECK("run:roundtrip", back == run && run == back, "the run read back does not compare equal: '", run.str(ts, is), "' and '", back.str(ts, is), "'");
    VT_CHECK("run:roundtrip", back.getTrait("host") == getHostname(), "host was read from the text");
    { // with measurements
        ExperimentRun b2(run.str(ts, is, true), ts, is);
        for (auto &x : m.meas) {
            unsigned long sum = 0; for (auto y : x.second) sum += y;
            if (!IGNORED.count(x.first) && !m.traits.count(x.first))
                VT_CHECK("run:measurements", b2.hasTrait(x.first) && b2.getTrait(x.first) == std::to_string(sum / x.second.size()), "average of '", x.first, "' not in the text '", run.str(ts, is, true), "'");
        }
        for (auto &t : relevant(m.traits)) VT_CHECK("run:measurements", b2.hasTrait(t.first) && b2.getTrait(t.first) == t.second, "trait '", t.first, "' not in the text with measurements");
    }
    // comparison looks at the relevant traits and nothing else
    ExperimentRun other(run);
    compare(other, m, "copy");
    VT_CHECK("run:equal", other == run && run == run, "a copy differs");
    other.updateTrait(std::string("run-number"), std::string("17"));
    other.updateTrait(std::string("start-time"), std::string("x"));
    other.updateTrait(std::string("host"), std::string("elsewhere"));
    other.addMeasurement("m", 1); other.incCounter("c");
    VT_CHECK("run:equal", other == run && run == other, "ignored traits, measurements or counters matter for the comparison");
    auto o2 = m.traits; bool changed = false;
    switch (r.below(3)) {
    case 0: { std::string n = r.pick(names), v = word(r, alphabet, 0, 5); other.updateTrait(n, v); o2[n] = v; break; }
    case 1: other.updateTrait(std::string("zzz"), 1); o2["zzz"] = "1"; break;
    default: other.updateTrait(std::string("0"), 1); o2["0"] = "1"; break;
    }
    changed = relevant(o2) != relevant(m.traits);
    VT_CHECK("run:equal", (other == run) == !changed && (run == other) == !changed, "runs '", run.str(), "' and '", other.str(), "' compare ", other == run, " and ", run == other, ", they are ", changed ? "different" : "equal");
    ctx().count("runs_compared");
    ctx().nontrivial(fnv(want));
}

static void concurrent(Rng &r, bool ch) {
    int T = r.range(2, 8), K = r.range(1, 400), N = r.range(1, 5);
    ExperimentRun run;
    if (r.chance(1, 2)) for (int i = 0; i < N; ++i) { run.incCounter("n" + std::to_string(i), 0); }
    bool prof = r.chance(1, 2);
    if (prof) PROFILER.setRun(&run);
    std::vector<std::map<std::string, std::vector<unsigned long>>> meas(T);
    std::vector<std::map<std::string, unsigned long>> cnt(T);
    uint64_t seed = r.next();
    parallel(T, seed, ch, [&](int t) {
        Rng q(seed, t, 7);
        std::map<std::string, unsigned long> seen; std::map<std::string, size_t> seenM;
        for (int k = 0; k < K; ++k) {
            std::string n = "n" + std::to_string(q.below(N));
            switch (q.below(5)) {
            case 0: case 1: { unsigned long v = q.below(5); if (prof) PROFILER.incCounter(n, v); else run.incCounter(n, v); cnt[t][n] += v; break; }
            case 2: case 3: { unsigned long v = (unsigned long)t << 32 | k; if (prof) PROFILER.addMeasurement(n, v); else run.addMeasurement(n, v); meas[t][n].push_back(v); break; }
            default:
                if (run.counters().count(n)) { unsigned long v = run.counter(n); if (v < seen[n] || v < cnt[t][n]) ctx().violation("run:counter", str("counter went from ", seen[n], " to ", v, ", own increments ", cnt[t][n])); seen[n] = v; }
                if (run.measurements().count(n)) { size_t v = run.measurements(n).size(); if (v < seenM[n]) ctx().violation("run:measure", str("number of measurements went from ", seenM[n], " to ", v)); seenM[n] = v; }
            }
            if (ch && q.chance(1, 50)) std::this_thread::yield();
        }
    });
    PROFILER.setRun(nullptr);
    uint64_t h = 0;
    for (int i = 0; i < N; ++i) {
        std::string n = "n" + std::to_string(i);
        unsigned long want = 0; std::multiset<unsigned long> wantM;
        std::vector<std::vector<unsigned long>> mine(T);
        for (int t = 0; t < T; ++t) { want += cnt[t][n]; wantM.insert(meas[t][n].begin(), meas[t][n].end()); }
        unsigned long got = run.counters().count(n) ? (unsigned long)run.counter(n) : 0;
        VT_CHECK("run:counter", got == want, "counter ", n, " is ", got, " after increments by ", want);
        std::vector<unsigned long> v; if (run.measurements().count(n)) v.assign(run.measurements(n).begin(), run.measurements(n).end());
        std::multiset<unsigned long> gotM(v.begin(), v.end());
        VT_CHECK("run:measure", gotM == wantM, gotM.size(), " measurements of ", n, " instead of ", wantM.size(), " or other values");
        for (auto x : v) if ((x >> 32) < (unsigned)T) mine[x >> 32].push_back(x);
        for (int t = 0; t < T; ++t) VT_CHECK("run:order", mine[t] == meas[t][n], "measurements of one thread are not in its order");
        h = fnv(v.data(), v.size() * sizeof(v[0]), h + got);
        ctx().count("concurrent_measurements", wantM.size());
        ctx().count("concurrent_increments", want);
    }
    ctx().nontrivial(h);
}

int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    long reps = atol(C.opt("reps", "2000").c_str());
    std::string part = C.opt("part", "seq");
    for (long c = 0; c < reps; ++c) {
        if (!C.runs(c)) continue;
        Rng r(C.seed, c, 190 + (part == "seq"));
        C.begin(c, part);
        guarded("run", [&] { if (part == "seq") sequential(r); else concurrent(r, r.chance(3, 4)); });
    }
    return C.finish();
}
