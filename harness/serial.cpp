// C21: objects stored in files and read back; point files.
#include "Geometry.h"
#include "Partitioner.h"
#include "utils/Serialization.hxx"
#include "vt.h"
#include <boost/serialization/map.hpp>
#include <cmath>
#include <filesystem>
#include <map>
#include <unistd.h>
using namespace vt;

static std::string dir;
static uint64_t trace;

template <typename P> P number(Rng &r) {
    switch (r.below(12)) {
        case 0: return 0; case 1: return P(-0.0); case 2: return std::numeric_limits<P>::max(); case 3: return std::numeric_limits<P>::lowest();
        case 4: return std::numeric_limits<P>::denorm_min() * P(1 + r.below(1000)); case 5: return std::numeric_limits<P>::min(); case 6: return P(r.below(1000)) - 500;
        case 7: return std::ldexp(P(r.uniform(-1, 1)), int(r.range(0, sizeof(P) == 4 ? 200 : 1900)) - (sizeof(P) == 4 ? 100 : 950));
        default: return P(r.uniform(-1000, 1000));
    }
}
template <typename P> P special(Rng &r) { // also what is no number
    if (!r.chance(1, 40)) return number<P>(r);
    int k = r.below(3); return k == 0 ? std::numeric_limits<P>::infinity() : k == 1 ? -std::numeric_limits<P>::infinity() : std::numeric_limits<P>::quiet_NaN();
}
template <typename A> bool same(const A &a, const A &b) { return !memcmp(&a, &b, sizeof(A)); }

template <uint D, typename P> dVector<D, P> vec(Rng &r) { dVector<D, P> v; for (auto &x : v) { x = special<P>(r); uint64_t b = 0; memcpy(&b, &x, sizeof x); trace = mix(trace ^ b); } return v; }
template <uint D, typename P> dPoint<D, P> pt(Rng &r) { return dPoint<D, P>(vec<D, P>(r)); }

template <typename O> O trip(O &o) {
    std::string f = dir + "/o";
    if (ctx().opt("stale") != "0") { std::ofstream g(f, std::ios::app); g << "remains of an older and longer file"; } // must not matter
    storeObject(o, f);
    ctx().count("bytes", std::filesystem::file_size(f));
    return loadObject<O>(f);
}

template <uint D, typename P> dPoints<D, P> points(Rng &r, std::vector<dVector<D, P>> &fin, std::vector<dVector<D, P>> &inf, uint64_t &off) {
    typedef dPoint<D, P> Pt;
    dPoints<D, P> ps; size_t n = r.chance(1, 5) ? 0 : r.chance(1, 10) ? r.below(5000) : r.below(100);
    fin.assign(1, dVector<D, P>{});
    for (size_t i = 0; i < n; ++i) { auto p = pt<D, P>(r); fin.push_back(p.coords); ps.emplace_back(p); }
    inf.clear();
    for (size_t i = 0; i < Pt::nINF; ++i) { auto p = pt<D, P>(r); inf.push_back(p.coords); ps[Pt::cINF + i] = p; }
    off = r.chance(1, 2) ? 0 : r.below(100000); ps.offset(off);
    return ps;
}
template <uint D, typename P> bool equal(const dPoints<D, P> &q, const std::vector<dVector<D, P>> &fin, const std::vector<dVector<D, P>> &inf, uint64_t off) {
    typedef dPoint<D, P> Pt;
    bool ok = q.finite_size() == fin.size() && q.size() == fin.size() + inf.size() && q.offset() == off;
    for (size_t i = 0; ok && i < fin.size(); ++i) ok = same(q[off + i].coords, fin[i]);
    for (size_t i = 0; ok && i < inf.size(); ++i) ok = same(q[Pt::cINF + i].coords, inf[i]);
    size_t k = 0; for (auto &p : q) { ok = ok && k < fin.size() && same(p.coords, fin[k]); ++k; }
    return ok && k == fin.size();
}

template <uint D, typename P> dSimplex<D, P> simplex(Rng &r) {
    dSimplex<D, P> s; s.id = r.next();
    for (auto &v : s.vertices) v = r.chance(1, 5) ? dPoint<D, P>::cINF + r.below(1 << D) : r.next() >> r.below(64);
    for (auto &v : s.neighbors) v = r.chance(1, 5) ? dSimplex<D, P>::cINF : r.next() >> r.below(64);
    s.vFingerprint = tHashType(r.next()); s.mark = tMarkType(r.next()); trace = mix(trace ^ s.id); return s;
}
template <uint D, typename P> bool equal(const dSimplex<D, P> &a, const dSimplex<D, P> &b) {
    return a.id == b.id && a.vertices == b.vertices && a.neighbors == b.neighbors && a.vFingerprint == b.vFingerprint && tMarkType(a.mark) == tMarkType(b.mark);
}

template <uint D, typename P> void objects(Rng &r) {
    { auto o = vec<D, P>(r); auto q = trip(o); VT_CHECK("serial:vector", same(o, q), "vector"); }
    { auto o = pt<D, P>(r); auto q = trip(o); VT_CHECK("serial:point", same(o.coords, q.coords), "point"); }
    { dBox<D, P> o(vec<D, P>(r), vec<D, P>(r)), c = o; auto q = trip(o); VT_CHECK("serial:box", same(c.low, q.low) && same(c.high, q.high), "box"); }
    { dSphere<D, P> o; o.center = vec<D, P>(r); o.radius = special<P>(r); auto q = trip(o); VT_CHECK("serial:sphere", same(o.center, q.center) && same(o.radius, q.radius), "sphere"); }
    { dPointStats<D, P> o; o.min = vec<D, P>(r); o.mid = vec<D, P>(r); o.max = vec<D, P>(r); auto q = trip(o); VT_CHECK("serial:stats", same(o.min, q.min) && same(o.mid, q.mid) && same(o.max, q.max), "statistics"); }
    { auto o = simplex<D, P>(r), q = trip(o); VT_CHECK("serial:simplex", equal(o, q), "simplex"); }
    { // containers of them
        std::vector<dPoint<D, P>> o; for (size_t i = r.below(50); i; --i) o.push_back(pt<D, P>(r));
        auto q = trip(o); bool ok = o.size() == q.size(); for (size_t i = 0; ok && i < o.size(); ++i) ok = same(o[i].coords, q[i].coords);
        VT_CHECK("serial:vectorof", ok, "vector of points");
        std::map<uint64_t, dBox<D, P>> m; for (size_t i = r.below(20); i; --i) m[r.next()] = dBox<D, P>(vec<D, P>(r), vec<D, P>(r));
        auto n = trip(m); ok = m.size() == n.size(); for (auto &x : m) ok = ok && n.count(x.first) && same(n[x.first].low, x.second.low) && same(n[x.first].high, x.second.high);
        VT_CHECK("serial:mapof", ok, "map of boxes");
    }
    { // partition
        std::set<tIdType> ids; Point_Ids set(8);
        for (size_t i = r.below(200); i; --i) { tIdType x = r.chance(1, 10) ? dPoint<D, P>::cINF + r.below(1 << D) : r.range(1, 100000); ids.insert(x); set.insert(x); }
        dBox<D, P> b(vec<D, P>(r), vec<D, P>(r)); uint id = uint(r.next());
        Partition<D, P> o(set, b, id), q(r.below(100));
        std::string f = dir + "/p"; storeObject(o, f);
        { std::ifstream in(f, std::ios::binary); boost::archive::binary_iarchive ia(in); ia >> q; }
        std::set<tIdType> back(q.points.begin(), q.points.end());
        bool ok = q.id == id && same(q.bounds.low, b.low) && same(q.bounds.high, b.high) && back == ids && q.points.size() == ids.size();
        for (auto x : ids) ok = ok && q.contains(x);
        VT_CHECK("serial:partition", ok, "partition of ", ids.size(), " points, read back ", back.size());
        q.points.insert(100001); VT_CHECK("serial:partition", q.contains(tIdType(100001)) && !o.contains(tIdType(100001)), "the partition read back does not grow");
    }
    ctx().count("objects", 9);
}

template <uint D, typename P> void pointsTrip(Rng &r) {
    std::vector<dVector<D, P>> fin, inf; uint64_t off;
    auto ps = points<D, P>(r, fin, inf, off);
    auto q = trip(ps);
    VT_CHECK("serial:points", (equal<D, P>(ps, fin, inf, off)), "storing changed the points");
    VT_CHECK("serial:points", (equal<D, P>(q, fin, inf, off)), "points read back differ: ", fin.size(), " slots, offset ", off, ", read ", q.finite_size(), " at ", q.offset());
    auto p = pt<D, P>(r); q.emplace_back(p); fin.push_back(p.coords);
    VT_CHECK("serial:points", (equal<D, P>(q, fin, inf, off)), "the points read back do not grow");
    // into an object in use
    std::vector<dVector<D, P>> f2, i2; uint64_t o2; auto used = points<D, P>(r, f2, i2, o2);
    std::string f = dir + "/q"; storeObject(q, f);
    { std::ifstream in(f, std::ios::binary); boost::archive::binary_iarchive ia(in); ia >> used; }
    VT_CHECK("serial:points", (equal<D, P>(used, fin, inf, off)), "points read into a used object differ");
    // damaged and missing files are refused
    size_t size = std::filesystem::file_size(f); std::filesystem::resize_file(f, r.below(size));
    bool thrown = false; try { auto x = loadObject<dPoints<D, P>>(f); } catch (const std::exception &) { thrown = true; }
    VT_CHECK("serial:damaged", thrown, "a file cut off at ", std::filesystem::file_size(f), " of ", size, " bytes was read");
    std::filesystem::remove(f);
    thrown = false; try { auto x = loadObject<dPoints<D, P>>(f); } catch (const std::exception &) { thrown = true; }
    VT_CHECK("serial:damaged", thrown, "a missing file was read");
    ctx().count("points", fin.size()); trace = mix(trace ^ fin.size() ^ off);
}

template <uint D, typename P> void textPoints(Rng &r) {
    std::vector<dVector<D, P>> fin, inf; uint64_t off; auto ps = points<D, P>(r, fin, inf, off);
    size_t n = r.chance(1, 8) ? 0 : r.chance(1, 10) ? r.below(3000) : r.range(1, 60);
    bool dflt = r.chance(1, 2); char sep = dflt ? ' ' : r.pick(std::vector<char>{' ', ',', ';', '\t', '|'});
    std::string f = dir + "/t", bad; dVector<D, P> lo, hi; lo.fill(std::numeric_limits<P>::max()); hi.fill(std::numeric_limits<P>::lowest());
    size_t badLine = r.chance(1, 4) && n ? r.below(n) : n; bool noNewline = r.chance(1, 4); int form = r.below(3);
    {
        std::ofstream o(f);
        for (size_t i = 0; i < n; ++i) {
            std::vector<std::string> t;
            for (uint d = 0; d < D; ++d) {
                P x = number<P>(r); if (std::abs(x) < std::numeric_limits<P>::min()) x = 0;
                if (sizeof(P) == 8 && form == 2 && std::abs(x) > 1e200) x = 1;
                char b[800]; snprintf(b, sizeof b, form == 0 ? "%.17g" : form == 1 ? "%.16e" : "%.17g", double(x));
                if (form == 2 && x == std::floor(x) && std::abs(x) < 1e6) snprintf(b, sizeof b, "%d", int(x)), x = P(int(x));
                t.push_back(b);
                if (i < badLine) { lo[d] = std::min(lo[d], x); hi[d] = std::max(hi[d], x); }
                if (d == 0) fin.push_back({}); fin.back()[d] = x;
            }
            if (i == badLine) {
                switch (r.below(4)) {
                    case 0: t.pop_back(); bad = "missing coordinate"; break;
                    case 1: t.push_back("1"); bad = "additional coordinate"; break;
                    case 2: t[r.below(D)] = r.pick(std::vector<std::string>{"x", "abc", "--1", "", "."}); bad = "no number"; break;
                    default: t.clear(); bad = "empty line";
                }
            }
            std::string line; for (size_t k = 0; k < t.size(); ++k) line += (k ? std::string(1, sep) : "") + t[k];
            o << line; if (!(noNewline && i + 1 == n && !line.empty())) o << "\n";
        }
    }
    if (!bad.empty()) {
        bool thrown = false; try { if (dflt) ps.loadFromFile(f); else ps.loadFromFile(f, sep); } catch (const std::exception &) { thrown = true; }
        VT_CHECK("serial:badtext", thrown, bad, " in line ", badLine, " of ", n, " was accepted");
        ctx().count("refused"); return;
    }
    auto b = dflt ? ps.loadFromFile(f) : ps.loadFromFile(f, sep);
    bool ok = ps.finite_size() == fin.size() && ps.offset() == off; size_t at = 0;
    for (size_t i = 0; ok && i < fin.size(); ++i) for (uint d = 0; d < D; ++d) if (!(i > fin.size() - n - 1 ? ps[off + i].coords[d] == fin[i][d] : same(ps[off + i].coords[d], fin[i][d]))) { ok = false; at = i; }
    VT_CHECK("serial:text", ok, "points read from text differ at ", at, " of ", fin.size(), ", ", n, " of them read");
    for (size_t i = 0; i < inf.size(); ++i) VT_CHECK("serial:text", same(ps[dPoint<D, P>::cINF + i].coords, inf[i]), "reading points changed a bounding point");
    VT_CHECK("serial:bounds", b.low == lo && b.high == hi, "bounds of the points read are wrong");
    ctx().count("text_points", n); trace = mix(trace ^ n);
}

template <uint D, typename P> void all(Rng &r, int part) {
    if (part == 0) objects<D, P>(r); else if (part == 1) pointsTrip<D, P>(r); else textPoints<D, P>(r);
}
int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    char tmpl[] = "/tmp/vt_serial_XXXXXX"; dir = mkdtemp(tmpl);
    long reps = atol(C.opt("reps", "1000").c_str());
    for (long c = 0; c < reps; ++c) {
        if (!C.runs(c)) continue;
        Rng r(C.seed, c, 211); int part = r.below(3), k = r.below(4); trace = c;
        C.begin(c, str(part == 0 ? "objects " : part == 1 ? "points " : "text ", k < 2 ? "2D " : "3D ", k % 2 ? "float" : "double"));
        guarded("serial", [&] {
            if (k == 0) all<2, double>(r, part); else if (k == 1) all<2, float>(r, part); else if (k == 2) all<3, double>(r, part); else all<3, float>(r, part);
        });
        C.nontrivial(trace);
    }
    std::filesystem::remove_all(dir);
    return C.finish();
}
