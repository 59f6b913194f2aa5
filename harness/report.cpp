// C23: the experiment executables: command line, report.
#define main lb_main
#include "src/exe/LB_Experiments.cpp"
#undef main
#include "vt.h"
#include "points.h"
#include "tri_oracle.h"
#include <unistd.h>
#include <fcntl.h>
#include <filesystem>
using namespace vt;

// strict JSON
struct J {
    char t = 0; std::string s; double n = 0; bool b = false; std::vector<J> a; std::vector<std::pair<std::string, J>> o;
    const J *get(const std::string &k) const { const J *r = nullptr; for (auto &x : o) if (x.first == k) { if (r) return nullptr; r = &x.second; } return r; }
};
struct Parser {
    const std::string &s; size_t p = 0; std::string err;
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) ++p; }
    bool fail(const std::string &m) { if (err.empty()) err = str(m, " at ", p, ": ...", s.substr(p > 30 ? p - 30 : 0, 60)); return false; }
    bool lit(const char *l) { size_t n = strlen(l); if (s.compare(p, n, l)) return fail("bad literal"); p += n; return true; }
    bool string(std::string &o) {
        if (s[p] != '"') return fail("no string"); ++p;
        while (p < s.size() && s[p] != '"') {
            unsigned char c = s[p++];
            if (c < 0x20) return fail("control character in a string");
            if (c == '\\') {
                char e = p < s.size() ? s[p++] : 0;
                if (e == 'u') { if (p + 4 > s.size()) return fail("bad escape"); o += char(strtoul(s.substr(p, 4).c_str(), 0, 16)); p += 4; }
                else if (e == '"' || e == '\\' || e == '/') o += e; else if (e == 'n') o += '\n'; else if (e == 't') o += '\t'; else if (e == 'b') o += '\b'; else if (e == 'f') o += '\f'; else if (e == 'r') o += '\r'; else return fail("bad escape");
            } else o += c;
        }
        if (p >= s.size()) return fail("open string"); ++p; return true;
    }
    bool value(J &v, int depth = 0) {
        ws(); if (p >= s.size() || depth > 20) return fail("no value");
        char c = s[p];
        if (c == '{') {
            v.t = 'o'; ++p; ws(); if (p < s.size() && s[p] == '}') { ++p; return true; }
            for (;;) { ws(); std::string k; if (p >= s.size() || !string(k)) return fail("no key"); ws(); if (p >= s.size() || s[p] != ':') return fail("no colon"); ++p; v.o.emplace_back(k, J()); if (!value(v.o.back().second, depth + 1)) return false; ws(); if (p < s.size() && s[p] == ',') { ++p; continue; } if (p < s.size() && s[p] == '}') { ++p; return true; } return fail("object not closed"); }
        }
        if (c == '[') {
            v.t = 'a'; ++p; ws(); if (p < s.size() && s[p] == ']') { ++p; return true; }
            for (;;) { v.a.emplace_back(); if (!value(v.a.back(), depth + 1)) return false; ws(); if (p < s.size() && s[p] == ',') { ++p; continue; } if (p < s.size() && s[p] == ']') { ++p; return true; } return fail("array not closed"); }
        }
        if (c == '"') { v.t = 's'; return string(v.s); }
        if (c == 't') { v.t = 'b'; v.b = true; return lit("true"); }
        if (c == 'f') { v.t = 'b'; return lit("false"); }
        if (c == 'n') { v.t = 'n'; return lit("null"); }
        size_t q = p; if (s[p] == '-') ++p; if (p >= s.size() || !isdigit((unsigned char)s[p])) return fail("no value");
        while (p < s.size() && (isdigit((unsigned char)s[p]) || strchr("+-.eE", s[p]))) ++p;
        v.t = 'd'; v.n = strtod(s.substr(q, p - q).c_str(), 0); return true;
    }
    bool all(J &v) { if (!value(v)) return false; ws(); return p == s.size() || fail("trailing text"); }
};

struct Capture {
    std::ostringstream o, e; std::streambuf *so, *se;
    Capture() : so(std::cout.rdbuf(o.rdbuf())), se(std::cerr.rdbuf(e.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(so); std::cerr.rdbuf(se); }
};

static std::string dir;
struct Conf {
    int D; size_t n; std::string part, dist, file, bounds; int threads; uint seed; bool hasSeed, flat, validate, sample; size_t sampleMax; int sampleMode = 0, verbosity = 1; std::vector<std::string> args; std::string text;
};

static const char *PARTS[] = {"binary-besp", "center-distance-pasp", "bounds-distance-pasp", "nearest-sample-pasp", "nearest-sample-pasb", "hyperplane-sample-pasb", "kway-cycle", "dWay", "cycle", "extend", "one-dim"};
static const char *NAMES[] = {"binary box-estimating sample partitioner", "center-distance-point-assigning sample partitioner", "bounds-distance-point-assigning sample partitioner", "nearest-sample-point-assigning sample partitioner", "nearest-sample-point-assigning sample bipartitioner", "hyperplane sampling bipartitioner", "k-way cycle"};
static const char *DISTS[] = {"uniform", "normal", "bubble", "ellipsoid", "skew-line", "unbound-bubble", "patch-bubble"};

static Conf conf(Rng &r, bool cli) {
    Conf c; c.D = 2 + r.below(2); c.n = r.chance(1, 5) ? r.range(100, 400) : r.range(400, 2500);
    int k = r.below(11); c.part = PARTS[k];
    c.threads = c.part == "dWay" ? 1 << (c.D * r.range(1, 2)) : 1 << r.range(0, 4);
    c.hasSeed = r.chance(3, 4); c.seed = c.hasSeed ? uint(r.next()) : START_SEED; c.flat = r.chance(1, 4); c.validate = r.chance(1, 2);
    auto add = [&](const std::string &o, const std::string &v) { if (r.chance(1, 2)) { c.args.push_back("--" + o); c.args.push_back(v); } else c.args.push_back("--" + o + "=" + v); };
    if (cli) { add("dim", std::to_string(c.D)); add("threads", std::to_string(c.threads)); if (r.chance(1, 4)) add("verbosity", std::to_string(c.verbosity = r.below(3))); }
    add("partitioner", c.part);
    if (c.hasSeed) add("seed", std::to_string(c.seed));
    if (c.flat) c.args.push_back("--flatten");
    if (c.validate) add("validate", "1");
    c.sample = k <= 5; c.sampleMax = 0;
    if (c.sample) {
        if (r.chance(1, 2)) { c.sampleMax = r.range(std::max<size_t>(20, size_t(std::sqrt(double(c.n)))), 150); add("sample-size", std::to_string(c.sampleMax)); }
        else if (r.chance(1, 3) && k != 4 && c.n >= 400) { c.sampleMode = 1; add("sampling", "log"); }
        else { c.sampleMode = 2; if (r.chance(1, 2)) add("sampling", "sqrt"); }
        if (r.chance(1, 2)) add("edge-weights", r.pick(std::vector<std::string>{"uniform", "squared-inverted", "inverted", "linear", "log"}));
        if (r.chance(1, 3)) add("kaffpa-mode", r.pick(std::vector<std::string>{"FAST", "ECO", "STRONG", "PAR"}));
        if (r.chance(1, 3)) add("imbalance", "0.1");
        if (r.chance(2, 3)) add("bounds", c.bounds = r.pick(std::vector<std::string>{"grid", "accurate-grid", "box", "boxes"}));
        if (c.bounds != "box" && c.bounds != "boxes") add("cell-width", str(r.pick(std::vector<double>{1, 3, 10, 50})));
    }
    if (c.part == "one-dim") add("split-dimension", std::to_string(r.below(c.D)));
    return c;
}

static std::string expectedName(const Conf &c) {
    std::string n;
    for (int i = 0; i < 7; ++i) if (c.part == PARTS[i]) n = NAMES[i];
    if (n.empty()) n = "old partitioner("; // its own description follows
    return n;
}

static void checkHead(const Conf &c, const J &j) {
    auto S = [&](const char *k) -> std::string { auto x = j.get(k); if (!x || x->t != 's') { ctx().violation("report:head", str("no string '", k, "'")); return ""; } return x->s; };
    auto N = [&](const char *k) -> double { auto x = j.get(k); if (!x || x->t != 'd') { ctx().violation("report:head", str("no number '", k, "'")); return -1; } return x->n; };
    VT_CHECK("report:head", S("commit") == GIT_COMMIT, "commit '", S("commit"), "'");
    VT_CHECK("report:head", S("args") == c.text, "arguments '", S("args"), "' instead of '", c.text, "'");
    VT_CHECK("report:head", S("triangulator") == "load balanced DC Triangulator", "triangulator '", S("triangulator"), "'");
    std::string p = S("partitioner"), want = expectedName(c), flat = " (flattened)";
    bool isFlat = p.size() > flat.size() && p.compare(p.size() - flat.size(), flat.size(), flat) == 0;
    if (isFlat) p.resize(p.size() - flat.size());
    VT_CHECK("report:partitioner", isFlat == c.flat && (p == want || (want.back() == '(' && p.compare(0, want.size(), want) == 0 && p.size() > want.size() + 1 && p.back() == ')')), "partitioner '", S("partitioner"), "' for ", c.part, c.flat ? " flattened" : "");
    VT_CHECK("report:head", S("distribution") == (c.file.empty() ? c.dist : c.file), "distribution '", S("distribution"), "'");
    VT_CHECK("report:head", N("numpoints") == c.n, "numpoints ", N("numpoints"), " instead of ", c.n);
    VT_CHECK("report:head", N("threads") == c.threads, "threads ", N("threads"), " instead of ", c.threads);
    VT_CHECK("report:head", N("seed") == c.seed, "seed ", N("seed"), " instead of ", c.seed);
    std::tm tm = {}; std::string d = S("date"); const char *e = strptime(d.c_str(), "%Y-%m-%dT%H:%M:%S%z", &tm);
    VT_CHECK("report:head", e && !*e, "date '", d, "'");
}

static void checkRun(const Conf &c, const J &r, size_t simplices, double ms) {
    auto N = [&](const J &o, const char *k) -> double { auto x = o.get(k); if (!x || x->t != 'd') { ctx().violation("report:run", str("no number '", k, "'")); return -1; } return x->n; };
    VT_CHECK("report:times", N(r, "partitiontime") >= 0 && N(r, "triangulationtime") >= 0 && N(r, "partitiontime") <= ms + 1 && N(r, "triangulationtime") <= ms + 1 && N(r, "partitiontime") <= N(r, "triangulationtime") + ms + 1, "times ", N(r, "partitiontime"), " and ", N(r, "triangulationtime"), " ms of ", ms);
    VT_CHECK("report:simplices", N(r, "simplices") == simplices, N(r, "simplices"), " simplices reported, the triangulation has ", simplices);
    auto v = r.get("valid");
    if (c.validate) VT_CHECK("report:valid", v && v->t == 'b' && v->b, "not valid"); else VT_CHECK("report:valid", !v, "validity reported but not asked for");
    double ss = N(r, "sampleSize"), most = c.sampleMax;
    if (c.sampleMode == 1) most = std::log2(double(c.n + (1 << c.D))); // the bounding points count
    if (c.sampleMode == 2) most = std::sqrt(double(c.n + (1 << c.D)));
    if (c.sample && !c.flat) VT_CHECK("report:sample", (ss >= 1 || c.part.find("pasp") == std::string::npos) && ss <= most && ss <= c.n, "sample size ", ss, ", at most ", most); else VT_CHECK("report:sample", ss == 0, "sample size ", ss, " of a partitioner without sample");
    auto p = r.get("partitions"), b = r.get("basetriangulations");
    if (!p || p->t != 'a' || !b || b->t != 'a') { ctx().violation("report:run", "no partitions or base triangulations"); return; }
    double sum = 0, tri = 0; std::multiset<double> sizes, bases; const double inf = 1 << c.D;
    for (auto &x : p->a) { double n = N(x, "size"); sum += n - inf; if (n > inf) sizes.insert(n); }
    VT_CHECK("report:partitions", sum == c.n, p->a.size(), " partitions with ", sum, " points, there are ", c.n);
    for (auto &x : b->a) {
        double n = N(x, "points"); tri += n; auto pr = x.get("provenance");
        if (!pr || pr->t != 's' || pr->s.empty()) { ctx().violation("report:base", str("base triangulation of ", n, " points without provenance")); continue; }
        bool border = pr->s.find('e') != std::string::npos, sampled = pr->s[0] == 's';
        VT_CHECK("report:base", n > 0 || border, "base triangulation ", pr->s, " without points");
        if (!border && !sampled) bases.insert(n);
        ctx().count(border ? "border_bases" : sampled ? "sample_bases" : "leaf_bases");
    }
    VT_CHECK("report:bases", bases == sizes, bases.size(), " base triangulations of partitions do not have the sizes of the ", sizes.size(), " partitions");
    VT_CHECK("report:triangulated", N(r, "triangulatedPoints") == tri, "triangulatedPoints is ", N(r, "triangulatedPoints"), ", the base triangulations add up to ", tri);
    ctx().maxi("partitions", p->a.size()); ctx().maxi("bases", b->a.size());
    ctx().count("bases", b->a.size());
}

template <uint D> size_t reference(const dBox<D, double> &bounds, dPoints<D, double> &ps) {
    ::DCTriangulator<D, double> t(bounds, ps, 1, ::Partitioner<D, double>::make('c')); // places the bounding points
    return Ref<D, double>::run(ps, allIds<D, double>(ps)).size();
}

static int call(int (*f)(int, char **), std::vector<std::string> args) {
    args.insert(args.begin(), "exe"); std::vector<char *> v; for (auto &a : args) v.push_back(&a[0]); v.push_back(nullptr);
    return f(int(args.size()), v.data());
}
static std::string join(const std::vector<std::string> &v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + v[i]; return s; }

template <uint D> dPoints<D, double> generate(const Conf &c, dBox<D, double> &bounds, const po::variables_map &vm) {
    bounds.low.fill(0); bounds.high.fill(100);
    tGenerator g(c.seed); return createGenerator<D, double>(vm)->generate(c.n, bounds, g);
}
static po::variables_map parse(std::vector<std::string> args) {
    auto cl = defaultOptions<double>(); int dim, threads, verb; std::string pts;
    cl.add_options()("dim", po::value(&dim), "")("threads", po::value(&threads), "")("points", po::value(&pts), "")("verbosity", po::value(&verb), "");
    args.insert(args.begin(), "exe"); std::vector<const char *> v; for (auto &a : args) v.push_back(a.c_str());
    po::variables_map vm; po::store(po::parse_command_line(int(v.size()), v.data(), cl), vm); po::notify(vm); return vm;
}

template <uint D> void cli(Rng &r, Conf &c) {
    dBox<D, double> bounds; dPoints<D, double> ps;
    if (r.chance(1, 3)) { // points from a file, whose name needs escaping now and then
        dBox<D, double> box; auto v = makePoints<D, double>(r.chance(1, 2) ? 0 : r.below(3), c.n, r, box); c.n = v.size();
        c.file = dir + "/" + r.pick(std::vector<std::string>{"points", "my points.txt", "quo\"ted", "back\\slash", "tab\tname"});
        std::ofstream o(c.file); o.precision(17);
        for (auto &p : v) for (uint d = 0; d < D; ++d) o << p[d] << (d + 1 < D ? " " : "\n");
        o.close();
        c.args.push_back("--points"); c.args.push_back(c.file);
        ps = toPoints<D, double>(v); bounds.low.fill(1e300); bounds.high.fill(-1e300);
        for (auto &p : v) for (uint d = 0; d < D; ++d) { bounds.low[d] = std::min(bounds.low[d], p[d]); bounds.high[d] = std::max(bounds.high[d], p[d]); }
        ctx().count("point_files");
    } else {
        c.dist = r.pick(std::vector<std::string>(DISTS, DISTS + 7));
        if (c.dist == "skew-line" && c.n > 500) c.dist = "normal"; // a quadratic number of simplices
        c.args.push_back("--distribution"); c.args.push_back(c.dist); c.args.push_back("--n"); c.args.push_back(std::to_string(c.n));
        if (c.dist.find("bubble") != std::string::npos && c.dist != "bubble" && r.chance(1, 2)) { c.args.push_back("--num-bubbles"); c.args.push_back(std::to_string(r.range(2, 30))); }
        if (c.dist == "unbound-bubble" && r.chance(1, 2)) { c.args.push_back("--bubble-radius"); c.args.push_back("7.5"); }
        ps = generate<D>(c, bounds, parse(c.args));
    }
    for (size_t i = 0; i < c.args.size(); ++i) if (c.args[i].compare(0, 2, "--") == 0 && r.chance(1, 10)) { // options in another order
        size_t len = i + 1 < c.args.size() && c.args[i + 1].compare(0, 2, "--") ? 2 : 1; std::rotate(c.args.begin(), c.args.begin() + i, c.args.begin() + i + len); }
    c.text = join(c.args);
    std::string out, err; int rc, level; double ms;
    {
        Capture cap; startGen.seed(START_SEED);
        auto t0 = Clock::now();
        rc = call(lb_main, c.args);
        ms = std::chrono::duration<double, std::milli>(Clock::now() - t0).count();
        out = cap.o.str(); err = cap.e.str(); level = int(LOGGER.getLogLevel());
    }
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    VT_CHECK("report:verbosity", level == c.verbosity, "log level ", level, " instead of ", c.verbosity);
    if (!c.file.empty()) std::filesystem::remove(c.file);
    VT_CHECK("report:exit", rc == 0, "exit code ", rc, " ", err);
    J j; Parser p{out}; if (!p.all(j) || j.t != 'o') { ctx().violation("report:json", str("not JSON: ", p.err)); return; }
    checkHead(c, j);
    auto res = j.get("results");
    if (!res || res->t != 'a' || res->a.size() != 1) { ctx().violation("report:json", "not one result"); return; }
    size_t want = reference<D>(bounds, ps);
    checkRun(c, res->a[0], want, ms);
    ctx().count("part_" + c.part);
    ctx().nontrivial(fnv(c.text) + want);
}

template <uint D> void direct(Rng &r, Conf &c) { // several runs of one experiment
    int fam = r.below(F_COUNT); dBox<D, double> box;
    auto v = makePoints<D, double>(fam, c.n, r, box); c.n = v.size();
    auto ps = toPoints<D, double>(v); auto copy = ps;
    c.text = r.pick(std::vector<std::string>{"", "--a \"b\"", "x\\y\n\ttab"}); c.file = ""; c.dist = r.pick(std::vector<std::string>{"some", "a\"b"});
    auto vm = parse(c.args);
    std::ostringstream out; int runs = r.range(0, 3); std::vector<double> ms; std::vector<bool> ok;
    tGenerator g(c.seed);
    {
        tbb::task_scheduler_init init(r.range(1, 8));
        auto part = createPartitioner<D, double, lb::ComprehensiveMonitor>(vm, c.threads, g);
        typename lb::Experiment<D, double>::Setup s{c.text, box, ps, c.validate, c.dist, size_t(c.threads), c.seed};
        lb::Experiment<D, double> e(std::move(part), std::move(s), out);
        for (int i = 0; i < runs; ++i) { auto t0 = Clock::now(); ok.push_back(e.runOnce()); ms.push_back(std::chrono::duration<double, std::milli>(Clock::now() - t0).count()); }
    }
    std::string text = out.str(); J j; Parser p{text}; if (!p.all(j) || j.t != 'o') { ctx().violation("report:json", str("not JSON: ", p.err)); return; }
    checkHead(c, j);
    auto res = j.get("results");
    if (!res || res->t != 'a' || (int)res->a.size() != runs) { ctx().violation("report:json", str(res ? res->a.size() : 0, " results of ", runs, " runs")); return; }
    size_t want = runs ? reference<D>(box, copy) : 0;
    for (int i = 0; i < runs; ++i) { VT_CHECK("report:valid", ok[i], "run ", i, " reports an invalid triangulation"); checkRun(c, res->a[i], want, ms[i]); }
    ctx().count("runs", runs);
    ctx().nontrivial(want * 31 + fnv(c.part) + runs);
}

static void dump(Rng &r) { // the point dump and reading it back
    Conf c; c.D = 3; c.n = r.chance(1, 4) ? r.range(0, 5) : r.range(1, 1500); c.hasSeed = true; c.seed = uint(r.next());
    c.dist = r.pick(std::vector<std::string>(DISTS, DISTS + 7));
    c.args = {"--n", std::to_string(c.n), "--distribution=" + c.dist, "--seed", std::to_string(c.seed)};
    dBox<3, double> bounds; auto ps = generate<3>(c, bounds, parse(c.args));
    std::string f = dir + "/dump";
    std::string cmd = "exec '" + ctx().opt("dump") + "'"; for (auto &a : c.args) cmd += " " + a;
    fflush(stdout); int rc = system((cmd + " > " + f + " 2>" + f + ".err").c_str());
    std::filesystem::remove(f + ".err");
    VT_CHECK("report:dump", rc == 0, "exit code ", rc);
    std::ifstream in(f); std::string line; size_t i = 0; bool ok = true;
    while (std::getline(in, line)) {
        ++i; if (i >= ps.finite_size()) continue;
        char want[200]; snprintf(want, 200, "%f %f %f", ps[i].coords[0], ps[i].coords[1], ps[i].coords[2]);
        if (line != want && ok) { ok = false; ctx().violation("report:dump", str("point ", i, " of ", c.dist, " is '", line, "' instead of '", want, "'")); }
    }
    VT_CHECK("report:dump", i == c.n, i, " lines for ", c.n, " points");
    dPoints<3, double> back; auto b = back.loadFromFile(f);
    VT_CHECK("report:dumpload", back.finite_size() == c.n + 1, back.finite_size(), " slots after reading ", c.n, " points");
    for (size_t k = 1; k < std::min(back.finite_size(), ps.finite_size()); ++k) for (uint d = 0; d < 3; ++d)
        if (!(std::abs(back[k].coords[d] - ps[k].coords[d]) <= 6e-7 && b.low[d] <= back[k].coords[d] && b.high[d] >= back[k].coords[d])) { ctx().violation("report:dumpload", str("point ", k, " read back differs")); k = c.n; break; }
    std::filesystem::remove(f);
    ctx().count("dumped_points", c.n);
    ctx().nontrivial(c.seed);
}

static void wrong(Rng &r) { // refused command lines
    struct W { std::vector<std::string> a; int kind; };
    std::vector<std::string> base = {"--n", "500", "--dim", "2", "--distribution", "uniform", "--threads", "4", "--seed", "1"};
    auto with = [&](std::initializer_list<std::string> l) { auto v = base; v.insert(v.end(), l); return v; };
    static const int THROW = 1, FAIL = 2, HELP = 3;
    std::vector<W> all = {
        {with({"--partitioner", r.pick(std::vector<std::string>{"nope", "", "d-way", "Cycle", "simple"})}), THROW},
        {with({"--partitioner", "nearest-sample-pasp", "--bounds", "circle"}), THROW},
        {with({"--partitioner", "nearest-sample-pasp", "--bounds", "box", "--sampling", "all"}), THROW},
        {with({"--partitioner", "nearest-sample-pasp", "--bounds", "box", "--sampling", "log", "--sample-size", "30"}), THROW},
        {with({"--partitioner", "cycle", "--nonsense", "1"}), THROW},
        {base, FAIL},
        {{"--partitioner", "cycle", "--dim", "2", "--distribution", "uniform"}, FAIL},
        {{"--partitioner", "cycle", "--dim", "2", "--n", "100"}, FAIL},
        {with({"--help"}), HELP}};
    auto &w = all[r.below(all.size())];
    int rc = -1; bool thrown = false; std::string out;
    { Capture cap; try { rc = call(lb_main, w.a); } catch (const std::exception &) { thrown = true; } out = cap.o.str(); }
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    if (w.kind == THROW) VT_CHECK("report:refuse", thrown && out.empty(), "accepted '", join(w.a), "'");
    else if (w.kind == FAIL) VT_CHECK("report:refuse", !thrown && rc != 0 && out.find('{') == std::string::npos && !out.empty(), "'", join(w.a), "' exits with ", rc);
    else VT_CHECK("report:refuse", !thrown && rc == 0 && out.find("--partitioner") != std::string::npos, "no help");
    ctx().count("refused");
    ctx().nontrivial(fnv(join(w.a)));
}

int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    char tmpl[] = "/tmp/vt_report_XXXXXX"; dir = mkdtemp(tmpl);
    long reps = atol(C.opt("reps", "400").c_str());
    for (long c = 0; c < reps; ++c) {
        if (!C.runs(c)) continue;
        Rng r(C.seed, c, 230);
        int k = r.below(20);
        Conf cf = conf(r, k < 10);
        C.begin(c, k < 17 ? str(k < 10 ? "cli " : "direct ", cf.D, "D n=", cf.n, " threads=", cf.threads, " ", join(cf.args)) : k < 19 ? "dump" : "refuse");
        guarded("report", [&] {
            if (k < 10) { if (cf.D == 2) cli<2>(r, cf); else cli<3>(r, cf); }
            else if (k < 17) { if (cf.D == 2) direct<2>(r, cf); else direct<3>(r, cf); }
            else if (k < 19) dump(r);
            else wrong(r);
        });
        LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    }
    std::filesystem::remove_all(dir);
    return C.finish();
}
