// Stand-in for the external KaHIP library (not installed): checks the graph it is given and returns a valid
// partition of it.  vt_kahip_mode selects how: 0 region growing, 1 region growing or round robin by seed,
// 2 random labels, 3 one part left empty.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <vector>
#include <string>
#include <atomic>
enum { FAST = 0, ECO = 1, STRONG = 2, FASTSOCIAL = 3, ECOSOCIAL = 4, STRONGSOCIAL = 5, FASTSOCIALMULTITRY_PARALLEL = 6 };
inline int vt_kahip_mode = 0;
inline std::atomic<long> vt_kahip_calls{0}, vt_kahip_bad{0};
inline std::string vt_kahip_msg;
inline void vt_kahip_fail(const std::string &m) { if (!vt_kahip_bad++) vt_kahip_msg = m; }
inline void kaffpa(int *n, int *, int *xadj, int *adjcwgt, int *adjncy, int *nparts, double *, bool, int seed, int, int, int *edgecut, int *part) {
    ++vt_kahip_calls;
    int N = *n, K = *nparts;
    // the graph format KaHIP (like Metis) requires
    bool ok = xadj[0] == 0;
    for (int i = 0; i < N; ++i) ok &= xadj[i] <= xadj[i + 1];
    if (!ok) vt_kahip_fail("row index not monotone from 0");
    if (ok) {
        for (int i = 0; i < N && ok; ++i)
            for (int e = xadj[i]; e < xadj[i + 1] && ok; ++e) {
                int j = adjncy[e];
                if (j < 0 || j >= N) { ok = false; vt_kahip_fail("edge target out of range"); break; }
                if (j == i) { ok = false; vt_kahip_fail("self loop"); break; }
                if (adjcwgt && adjcwgt[e] < 1) { ok = false; vt_kahip_fail("non-positive edge weight"); break; }
                int back = 0, w = 0;
                for (int f = xadj[j]; f < xadj[j + 1]; ++f) if (adjncy[f] == i) { ++back; w = adjcwgt ? adjcwgt[f] : 1; }
                if (back != 1) { ok = false; vt_kahip_fail("edge not matched by exactly one reverse edge"); break; }
                if (adjcwgt && w != adjcwgt[e]) { ok = false; vt_kahip_fail("edge weight not symmetric"); break; }
            }
    }
    unsigned s = (unsigned)seed * 2654435761u + 12345u;
    auto rnd = [&](unsigned m) { s ^= s << 13; s ^= s >> 17; s ^= s << 5; return m ? s % m : 0; };
    int mode = vt_kahip_mode;
    if (mode == 1) mode = rnd(2) ? 0 : 4;
    if (!ok || mode == 2) { for (int i = 0; i < N; ++i) part[i] = i < K ? i : (int)rnd(K); }
    else if (mode == 4) { for (int i = 0; i < N; ++i) part[i] = i % K; }
    else {
        int used = mode == 3 && K > 2 ? K - 1 : K;
        std::fill(part, part + N, -1);
        std::vector<std::vector<int>> q(used);
        std::vector<size_t> head(used, 0);
        for (int k = 0; k < used && k < N; ++k) {
            int i = rnd(N), t = 0;
            while (part[i] != -1 && t++ < 2 * N) i = (i + 1) % N;
            part[i] = k; q[k].push_back(i);
        }
        bool any = true;
        while (any) {
            any = false;
            for (int k = 0; k < used; ++k) {
                bool took = false;
                while (head[k] < q[k].size() && !took) {
                    int i = q[k][head[k]];
                    for (int e = xadj[i]; e < xadj[i + 1]; ++e) if (part[adjncy[e]] == -1) { part[adjncy[e]] = k; q[k].push_back(adjncy[e]); took = true; break; }
                    if (!took) ++head[k];
                }
                any |= took;
            }
        }
        for (int i = 0; i < N; ++i) if (part[i] == -1) part[i] = rnd(used);
    }
    *edgecut = 0;
}
