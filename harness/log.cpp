// C20: logger, indentation, containers, task timer.
#include "utils/Logger.h"
#include "utils/TaskTimer.h"
#include "vt.h"
#include "conc.h"
#include <deque>
#include <list>
#include <set>
using namespace vt;
using V = Logger::Verbosity;

struct Entry { int level; std::string text; };
static std::vector<Entry> all; // everything logged so far: the log only grows

static std::string word(Rng &r) { static const std::string a = "abcxyz019 _-:\t\n"; std::string s; for (int n = r.range(0, 20); n > 0; --n) s += a[r.below(a.size())]; return s; }
static std::string expected(int level) { std::string s; if (level == 0) return s; for (auto &e : all) if (e.level <= level) s += e.text; return s; }
static std::string diff(const std::string &got, const std::string &want) {
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    return str("differs at ", i, " of ", want.size(), ": '", got.substr(i, 60), "' instead of '", want.substr(i, 60), "'");
}
struct Capture { // what goes to std::cout
    std::ostringstream o; std::streambuf *old;
    Capture() : old(std::cout.rdbuf(o.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
};

static void checkLog(const char *key) {
    for (int l = 0; l <= 3; ++l) {
        std::ostringstream o; LOGGER.printLog(o, V(l));
        std::string want = expected(l);
        VT_CHECK(key, o.str() == want, "the log at level ", l, " ", diff(o.str(), want));
    }
}

static void sequential(Rng &r) {
    uint64_t h = 1;
    int steps = r.range(1, 30);
    LOGGER.setIndent(r.below(4));
    for (int s = 0; s < steps; ++s) {
        int level = r.chance(1, 4) ? -int(r.range(1, 3)) : int(r.range(0, 3));
        int a = std::abs(level);
        LOGGER.setLogLevel(V(level));
        VT_CHECK("log:level", LOGGER.getLogLevel() == V(level) && Logger::abs(V(level)) == V(a), "log level");
        Capture cap; std::string live;
        auto put = [&](int l, const std::string &text) { if (level < 0) live += text; else all.push_back({l, text}); };
        for (int k = r.range(0, 8); k > 0; --k) {
            std::string w = word(r), ind(LOGGER.getIndent(), '\t'), n = std::to_string(all.size());
            VT_CHECK("log:indent", LOGGER.indent() == ind, "indent is '", LOGGER.indent(), "'");
            switch (r.below(10)) {
            case 0: { LOG(w << n); if (a >= 1) put(1, ind + w + n); break; }
            case 1: { VLOG(w << " " << n << std::endl); if (a >= 2) put(2, ind + w + " " + n + "\n"); break; }
            case 2: { PLOG(n << w); if (a >= 3) put(3, ind + n + w); break; }
            case 3: { int l = r.range(1, 3); auto &o = LOGGER.addLogEntry(V(l)); o << n; o << w; put(l, ind + n + w); break; } // unconditional
            case 4: { uint before = LOGGER.getIndent(); INDENT VT_CHECK("log:indent", LOGGER.getIndent() == before + (a >= 1), "INDENT at level ", level); break; }
            case 5: { uint before = LOGGER.getIndent(); if (before) { DEDENT VT_CHECK("log:indent", LOGGER.getIndent() == before - (a >= 1), "DEDENT at level ", level); } break; }
            case 6: { uint i = r.below(5); LOGGER.setIndent(i); break; }
            case 7: case 8: {
                std::vector<int> v; for (int c = r.range(0, 6); c > 0; --c) v.push_back(int(r.below(2000)) - 1000);
                std::string prefix = r.chance(1, 3) ? "" : word(r), sep = r.pick(std::vector<std::string>{" ", ", ", "", "\n"}), want;
                int l = r.range(1, 3), how = r.below(4);
                bool dflt = sep == " ";
                if (prefix != "") want = prefix + sep;
                for (size_t i = 0; i < v.size(); ++i) want += (i ? sep : "") + std::to_string(v[i]);
                want += "\n";
                if (how == 0) { if (dflt) LOGGER.logContainer(v, V(l), prefix); else LOGGER.logContainer(v, V(l), prefix, sep); }
                else if (how == 1) LOGGER.logContainer(v.begin(), v.end(), V(l), prefix, sep);
                else if (how == 2) { std::list<int> x(v.begin(), v.end()); LOGGER.logContainer(x, V(l), prefix, sep); }
                else { std::set<int> x(v.begin(), v.end()); LOGGER.logContainer(x, V(l), prefix, sep); want = prefix != "" ? prefix + sep : ""; size_t i = 0; for (int y : x) want += (i++ ? sep : "") + std::to_string(y); want += "\n"; }
                if (a >= l) put(l, ind + want);
                break;
            }
            default: { // a timed task: one line per interval
                std::string name = "t" + n; int rank = r.below(9); bool autostart = r.chance(1, 2); int ends = 0;
                size_t mark = all.size(), liveMark = live.size();
                long before, after;
                std::ostringstream o0; if (level >= 0) LOGGER.printLog(o0, V::PROLIX);
                size_t cap0 = cap.o.str().size();
                before = Clock::now().time_since_epoch().count();
                {
                    TaskTimer t(name, rank, autostart); bool running = autostart;
                    for (int x = r.range(0, 4); x > 0; --x) { if (r.chance(1, 2)) { t.start(); running = true; } else { t.end(); ends += running; running = false; } }
                    ends += running;
                }
                after = Clock::now().time_since_epoch().count();
                std::string got;
                if (level >= 0) { std::ostringstream o1; LOGGER.printLog(o1, V::PROLIX); got = o1.str().substr(o0.str().size()); } else got = cap.o.str().substr(cap0);
                (void)mark; (void)liveMark;
                std::string rest = got; int lines = 0;
                std::istringstream in(got); std::string line;
                while (std::getline(in, line)) {
                    ++lines;
                    std::string body = line + "\n";
                    if (level >= 0) all.push_back({1, body}); else live += body;
                    bool ok = line.compare(0, ind.size(), ind) == 0; std::istringstream f(line.substr(ok ? ind.size() : 0));
                    std::string w1, w2; long r1, s1, e1, d1; std::string more;
                    ok = ok && bool(f >> w1 >> r1 >> w2 >> s1 >> e1 >> d1) && !(f >> more) && w1 == "TIMING" && r1 == rank && w2 == name && s1 >= before && e1 <= after && s1 <= e1 && d1 == e1 - s1;
                    VT_CHECK("log:timer", ok, "timing line '", line, "' of task ", name, " rank ", rank, " between ", before, " and ", after);
                }
                VT_CHECK("log:timer", lines == (a >= 1 ? ends : 0), lines, " timing lines for ", ends, " ended intervals at level ", level);
                ctx().count("timings", ends);
            }
            }
        }
        std::string got = cap.o.str();
        VT_CHECK("log:live", got == live, "std::cout at level ", level, ": ", diff(got, live));
        h = fnv(live) ^ (h * 31 + all.size());
        ctx().count("level_" + std::to_string(level));
    }
    // the log, with explicit levels and by the current one
    checkLog("log:entries");
    for (int level = -3; level <= 3; ++level) {
        LOGGER.setLogLevel(V(level));
        std::ostringstream o, o2; LOGGER.printLog(o); o2 << LOGGER;
        std::string want = level > 0 ? expected(level) : "";
        VT_CHECK("log:current", o.str() == want && o2.str() == want, "the log printed at level ", level, " ", diff(o.str(), want));
    }
    LOGGER.setIndent(0);
    ctx().count("entries", all.size());
    ctx().nontrivial(h);
}

static void concurrent(Rng &r, bool ch) {
    int level = r.range(1, 3), T = r.range(2, 8), K = r.range(1, 150);
    LOGGER.setLogLevel(V(level));
    LOGGER.setIndent(2); // the main thread's own
    size_t before[4]; for (int l = 1; l <= 3; ++l) { std::ostringstream o; LOGGER.printLog(o, V(l)); before[l] = o.str().size(); }
    std::vector<std::vector<Entry>> mine(T);
    uint64_t seed = r.next();
    parallel(T, seed, ch, [&](int t) {
        Rng q(seed, t, 5);
        VT_CHECK("log:threadindent", LOGGER.getIndent() == 0, "a new thread starts with indentation ", LOGGER.getIndent());
        uint ind = 0;
        for (int k = 0; k < K; ++k) {
            std::string tag = "<" + std::to_string(t) + "." + std::to_string(k), pad(q.below(40), char('a' + t));
            if (LOGGER.getIndent() != ind) ctx().violation("log:threadindent", str("indentation ", LOGGER.getIndent(), " instead of the thread's own ", ind));
            std::string tabs(ind, '\t');
            switch (q.below(6)) {
            case 0: { LOG(tag << pad << ">" << std::endl); mine[t].push_back({1, tabs + tag + pad + ">\n"}); break; }
            case 1: { VLOG(tag << pad << ">" << std::endl); if (level >= 2) mine[t].push_back({2, tabs + tag + pad + ">\n"}); break; }
            case 2: { PLOG(tag << pad << ">" << std::endl); if (level >= 3) mine[t].push_back({3, tabs + tag + pad + ">\n"}); break; }
            case 3: { std::vector<int> v(q.below(5), t); LOGGER.logContainer(v, V::NORMAL, tag, ","); std::string s = tag + ","; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(t); mine[t].push_back({1, tabs + s + "\n"}); break; }
            case 4: if (ind < 6) { INDENT ++ind; } break;
            default: if (ind) { DEDENT --ind; } else { ind = q.below(3); LOGGER.setIndent(ind); }
            }
            if (ch && q.chance(1, 50)) std::this_thread::yield();
        }
    });
    VT_CHECK("log:threadindent", LOGGER.getIndent() == 2, "other threads changed the indentation");
    LOGGER.setIndent(0);
    uint64_t h = 0;
    std::vector<Entry> order;
    for (int l = 3; l >= 1; --l) {
        std::ostringstream o; LOGGER.printLog(o, V(l));
        std::string got = o.str();
        if (got.size() < before[l]) { ctx().violation("log:lost", "earlier entries disappeared"); return; }
        // every line is a whole entry of some thread, threads' entries in their order, none missing
        std::vector<size_t> next(T);
        std::istringstream in(got.substr(before[l])); std::string line; size_t n = 0;
        while (std::getline(in, line)) {
            line += "\n";
            size_t p = line.find('<'); int t = p == std::string::npos ? -1 : atoi(line.c_str() + p + 1);
            if (t < 0 || t >= T) { ctx().violation("log:entries", str("mangled entry '", line, "'")); return; }
            while (next[t] < mine[t].size() && mine[t][next[t]].level > l) ++next[t];
            if (next[t] >= mine[t].size() || mine[t][next[t]].text != line) { ctx().violation("log:entries", str("'", line, "' instead of '", next[t] < mine[t].size() ? mine[t][next[t]].text : "nothing", "' of thread ", t)); return; }
            if (l == 3) order.push_back(mine[t][next[t]]);
            ++next[t]; ++n; h = h * 31 + t;
        }
        for (int t = 0; t < T; ++t) {
            while (next[t] < mine[t].size() && mine[t][next[t]].level > l) ++next[t];
            VT_CHECK("log:lost", next[t] == mine[t].size(), mine[t].size() - next[t], " entries of thread ", t, " are missing");
        }
        ctx().count("concurrent_entries", n);
    }
    for (auto &e : order) all.push_back(e);
    checkLog("log:entries");
    ctx().nontrivial(h);
}

int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    long reps = atol(C.opt("reps", "2000").c_str());
    std::string part = C.opt("part", "seq");
    for (long c = 0; c < reps; ++c) {
        if (!C.runs(c)) continue;
        Rng r(C.seed, c, 200 + (part == "seq"));
        C.begin(c, part);
        guarded("log", [&] { if (part == "seq") sequential(r); else concurrent(r, r.chance(3, 4)); });
    }
    return C.finish();
}
