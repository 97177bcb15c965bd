// Random matching graphs of many shapes, and the exact minimum-weight table used only to decide which
// recorded behaviours are worth handing to TLC (the verdict is always TLC's).
#ifndef VERIF_GRAPHGEN_H
#define VERIF_GRAPHGEN_H
#include <algorithm>
#include <map>
#include <set>

#include "common.h"

struct GEdge {
    int u, v;  // v == -1: virtual boundary
    int w;
    std::vector<int> cols;  // observable columns
};
struct GGraph {
    int n = 0;                // nodes
    std::set<int> bnodes;     // nodes marked as boundary
    int k = 0;                // observable columns in use
    int K = 0;                // declared number of observables
    std::vector<int> colobs;  // column -> observable index
    std::vector<GEdge> edges;
    std::vector<int> phi;     // if set: every edge's label is the difference of these (boundary: 0)
    int scale = 1;            // the library sees every weight multiplied by this
    // The graph may be handed to the library inside a larger one: node v at index place[v], among many nodes
    // without edges and leaves that hang by a single edge. No explanation contains the edge of a leaf that
    // has no detection event, so nothing else changes (checked in MatchingGraphCheck).
    std::vector<int> place;
    int host_n = 0;
    std::vector<GEdge> pads;  // library indices
    std::vector<int> pad_after;  // inserted after so many edges of the graph
    std::map<int, int> name_of;
    // A crowd: edges that stand alone, each with two nodes of its own or one and the boundary. Members come in
    // runs of one weight, one set of labels and one kind. In a call, the first so many have detection events.
    struct Run {
        int count, w;
        std::vector<int> cols;
        int single;
    };
    std::vector<Run> runs;
    std::vector<GEdge> members;  // library indices
    std::map<int, int> member_of;
    // Chains: an edge may be handed to the library as a path through nodes of its own, whose weights and labels add
    // up to the edge's. No detection event is ever on these nodes, so an explanation takes all of it or nothing.
    std::vector<std::vector<GEdge>> chains;  // library indices, from u to v
    std::map<std::pair<long long, long long>, int> piece_of;
    int chain_of(long long x, long long y) const {
        auto it = piece_of.find({std::min(x, y), std::max(x, y)});
        return it == piece_of.end() ? -1 : it->second;
    }
    // The edges of an answer, with the edge in place of a complete chain, and no edge in place of an incomplete one.
    std::vector<std::pair<long long, long long>> collapse(const std::vector<int64_t>& ed) const {
        std::vector<std::pair<long long, long long>> out;
        std::map<int, std::set<std::pair<long long, long long>>> parts;
        for (size_t i = 0; i + 1 < ed.size(); i += 2) {
            int c = piece_of.empty() ? -1 : chain_of(ed[i], ed[i + 1]);
            if (c == -1)
                out.push_back({ed[i], ed[i + 1]});
            else if (!parts[c].insert({std::min(ed[i], ed[i + 1]), std::max(ed[i], ed[i + 1])}).second)
                out.push_back({host_n + 1, host_n + 1});
        }
        for (auto& q : parts)
            if (q.second.size() == chains[q.first].size())
                out.push_back({(long long)at(edges[q.first].u), edges[q.first].v == -1 ? -1 : (long long)at(edges[q.first].v)});
            else
                out.push_back({host_n + 1, host_n + 1});
        return out;
    }
    // The nodes of a path, without those inside of chains that it goes along.
    std::vector<long long> collapse_path(std::vector<size_t> p) const {
        std::vector<long long> out;
        if (!piece_of.empty() && !p.empty() && !name_of.count((int)p[0])) {  // from the boundary
            std::reverse(p.begin(), p.end());
            if (!name_of.count((int)p[0]))
                return {host_n + 1};
            out = collapse_path(p);
            std::reverse(out.begin(), out.end());
            return out;
        }
        for (size_t i = 0; i < p.size(); i++) {
            out.push_back((long long)p[i]);
            for (bool more = !piece_of.empty(); more;) {
                more = false;
                // a chain from here on
                long long to = i + 1 < p.size() ? (long long)p[i + 1] : -1;
                int c = chain_of((long long)p[i], to);
                if (c == -1)
                    continue;
                auto& ch = chains[c];
                bool fwd = ch[0].u == (long long)p[i] && ch[0].v == to;
                size_t m = ch.size(), j = 0;
                // the other end of each piece must be the next node of the path
                while (j < m) {
                    long long nx = fwd ? ch[j].v : ch[m - 1 - j].u;
                    if (i + 1 + j < p.size() ? nx != (long long)p[i + 1 + j] : !(nx == -1 && j == m - 1))
                        break;
                    j++;
                }
                if (j < m) {
                    out.push_back(host_n + 1);
                    break;
                }
                i += m - 1;
            }
        }
        return out;
    }
    long long member(long long x, long long y) const {
        if (x == -1)
            std::swap(x, y);
        auto it = member_of.find((int)x);
        if (it == member_of.end())
            return -1;
        auto& e = members[it->second];
        return (e.u == x && e.v == y) || (e.u == y && e.v == x) ? it->second : -1;
    }
    void excite(size_t t, std::vector<uint64_t>& ev) const {
        for (size_t i = 0; i < t; i++) {
            ev.push_back((uint64_t)members[i].u);
            if (members[i].v != -1)
                ev.push_back((uint64_t)members[i].v);
        }
    }
    // what the first t members contribute
    long long crowd_weight(size_t t) const {
        long long w = 0;
        for (size_t i = 0; i < t; i++)
            w += members[i].w;
        return w;
    }
    uint32_t crowd_labels(size_t t) const {
        uint32_t m = 0;
        for (size_t i = 0; i < t; i++)
            for (int c : members[i].cols)
                m ^= 1u << c;
        return m;
    }
    // members as intervals [first, last, mask]
    static std::string intervals(std::vector<std::pair<long long, long long>> v) {
        std::sort(v.begin(), v.end());
        std::vector<std::string> out;
        for (size_t i = 0; i < v.size();) {
            size_t j = i;
            while (j + 1 < v.size() && v[j + 1].first == v[j].first + 1 && v[j + 1].second == v[i].second)
                j++;
            out.push_back("[" + std::to_string(v[i].first + 1) + "," + std::to_string(v[j].first + 1) + "," + std::to_string(v[i].second) + "]");
            i = j + 1;
        }
        return J::raw(out);
    }
    size_t size() const { return (size_t)(place.empty() ? n : host_n); }
    size_t at(int v) const { return (size_t)(place.empty() || v < 0 ? v : place[v]); }
    // the node at a library index; something that is no node if there is none
    long long name(long long x) const {
        if (x < 0)
            return x;
        if (place.empty())
            return x;
        auto it = name_of.find((int)x);
        return it == name_of.end() ? 1000000 : it->second;
    }
    bool has_neg() const {
        for (auto& e : edges)
            if (e.w < 0)
                return true;
        for (auto& e : runs)
            if (e.w < 0)
                return true;
        return false;
    }
    std::string json() const {
        std::vector<std::string> es;
        for (auto& e : edges)
            es.push_back("[" + std::to_string(e.u) + "," + std::to_string(e.v) + "," + std::to_string(e.w) + "," +
                         J::arr(e.cols) + "]");
        std::vector<std::string> rs;
        for (auto& e : runs)
            rs.push_back("[" + std::to_string(e.count) + "," + std::to_string(e.w) + "," + J::arr(e.cols) + "," + std::to_string(e.single) + "]");
        return J().n("n", n).kv("b", J::arr(bnodes)).n("k", k).n("K", K).kv("edges", J::raw(es)).kv("crowd", J::raw(rs)).done();
    }
};

struct GenOpt {
    int max_n = 7, min_n = 2;
    int k = 2;
    int neg = 0;        // chance (percent) that the graph has negative weights
    int bnode = 20;     // chance that some nodes are boundary nodes
    int bigK = 0;       // 0: K = k.. small; 1: any K up to 64; 2: K on both sides of 64
    int zero = 30;      // chance that zero weights are allowed
    int maxw = 0;       // 0: mixture
    int dupcols = 10;   // chance of repeated labels on an edge
    int loops = 0;      // chance of self loops
    int negloops = 0;   // may they have a negative weight
    int maxedges = 100;
    bool fixed_n = false;
};

inline GGraph gen_graph(Rng& r, const GenOpt& o) {
    GGraph g;
    g.n = o.fixed_n ? o.max_n : r.range(o.min_n, o.max_n);
    g.k = o.k;
    int n = g.n;
    // weights
    int wmode = r.range(0, 5);
    bool zero = r.chance(o.zero, 100);
    auto rw = [&]() {
        int w;
        if (o.maxw)
            return r.range(zero ? 0 : 1, o.maxw);
        switch (wmode) {
            case 0: w = 1; break;
            case 1: w = r.range(1, 2); break;
            case 2: w = r.range(1, 4); break;
            case 3: w = r.range(1, 12); break;
            case 4: w = r.range(1, 1000); break;
            default: w = r.chance(1, 3) ? r.range(1, (1 << 24) - 1) : r.range(1, 1 << 20); break;
        }
        if (zero && r.chance(1, 4))
            w = 0;
        return w;
    };
    bool neg = r.chance(o.neg, 100);
    int negp = r.range(5, 70);
    std::set<std::pair<int, int>> have;
    auto add = [&](int u, int v) {
        if ((int)g.edges.size() >= o.maxedges)
            return;
        std::pair<int, int> key = v == -1 ? std::make_pair(u, -1) : std::make_pair(std::min(u, v), std::max(u, v));
        if (have.count(key))
            return;
        have.insert(key);
        GEdge e;
        e.u = u;
        e.v = v;
        if (v != -1 && r.chance(1, 2))
            std::swap(e.u, e.v);
        e.w = rw();
        if (neg && r.chance(negp, 100))
            e.w = -e.w;
        for (int c = 0; c < g.k; c++)
            if (r.chance(1, 3))
                e.cols.push_back(c);
        if (g.k && r.chance(o.dupcols, 100)) {
            int c = r.range(0, g.k - 1);
            e.cols.push_back(c);
        }
        g.edges.push_back(e);
    };
    int shape = r.range(0, 8);
    int bstyle = r.range(0, 4);
    switch (shape) {
        case 0: {  // random connected
            for (int i = 1; i < n; i++)
                add(i, r.range(0, i - 1));
            int extra = r.range(0, n);
            for (int i = 0; i < extra && n > 1; i++) {
                int a = r.range(0, n - 1), b = r.range(0, n - 1);
                if (a != b)
                    add(a, b);
            }
            break;
        }
        case 1: {  // path, perhaps closed to a ring
            for (int i = 0; i + 1 < n; i++)
                add(i, i + 1);
            if (n > 2 && r.chance(1, 2))
                add(n - 1, 0);
            break;
        }
        case 2: {  // complete
            for (int i = 0; i < n; i++)
                for (int j = 0; j < i; j++)
                    add(i, j);
            break;
        }
        case 3: {  // ladder / grid
            int wdt = std::max(2, r.range(2, 3));
            for (int i = 0; i < n; i++) {
                if ((i + 1) % wdt && i + 1 < n)
                    add(i, i + 1);
                if (i + wdt < n)
                    add(i, i + wdt);
                if (r.chance(1, 5) && i + wdt + 1 < n)
                    add(i, i + wdt + 1);
            }
            break;
        }
        case 4: {  // triangles joined in a chain (blossom friendly)
            for (int i = 0; i + 2 < n; i += 2) {
                add(i, i + 1);
                add(i + 1, i + 2);
                add(i, i + 2);
            }
            for (int i = 1; i < n; i++)
                if (r.chance(1, 3))
                    add(i, r.range(0, i - 1));
            break;
        }
        case 5: {  // two components
            int h = std::max(1, n / 2);
            for (int i = 1; i < n; i++) {
                if (i == h)
                    continue;
                int lo = i < h ? 0 : h;
                add(i, r.range(lo, i - 1));
            }
            for (int t = 0; t < n / 2; t++) {
                int a = r.range(0, n - 1), b = r.range(0, n - 1);
                if (a != b && (a < h) == (b < h))
                    add(a, b);
            }
            break;
        }
        case 6: {  // odd wheel
            for (int i = 1; i < n; i++) {
                add(0, i);
                if (i + 1 < n)
                    add(i, i + 1);
            }
            if (n > 3)
                add(n - 1, 1);
            break;
        }
        case 7: {  // sparse random, possibly isolated nodes
            int m = r.range(0, 2 * n);
            for (int i = 0; i < m && n > 1; i++) {
                int a = r.range(0, n - 1), b = r.range(0, n - 1);
                if (a != b)
                    add(a, b);
            }
            break;
        }
        default: {  // star of odd cycles around node 0
            int i = 1;
            while (i < n) {
                int len = std::min(n - i, r.range(2, 4));
                add(0, i);
                for (int j = 0; j + 1 < len; j++)
                    add(i + j, i + j + 1);
                add(0, i + len - 1);
                i += len;
            }
            break;
        }
    }
    // boundary
    if (bstyle == 1)
        add(r.range(0, n - 1), -1);
    else if (bstyle == 2) {
        add(0, -1);
        add(n - 1, -1);
    } else if (bstyle == 3) {
        for (int i = 0; i < n; i++)
            if (r.chance(1, 2))
                add(i, -1);
    } else if (bstyle == 4) {
        for (int i = 0; i < n; i++)
            add(i, -1);
    }
    if (r.chance(o.loops, 100)) {
        size_t before = g.edges.size();
        int a = r.range(0, n - 1);
        add(a, a);
        if (g.edges.size() > before && !o.negloops)
            g.edges.back().w = std::abs(g.edges.back().w);
    }
    if (r.chance(o.bnode, 100)) {
        int c = r.range(1, std::max(1, n / 3));
        for (int i = 0; i < c; i++)
            g.bnodes.insert(r.range(0, n - 1));
    }
    r.shuffle(g.edges);
    // relabel nodes
    std::vector<int> perm(n);
    for (int i = 0; i < n; i++)
        perm[i] = i;
    r.shuffle(perm);
    std::set<int> nb;
    for (int b : g.bnodes)
        nb.insert(perm[b]);
    g.bnodes = nb;
    for (auto& e : g.edges) {
        e.u = perm[e.u];
        if (e.v != -1)
            e.v = perm[e.v];
    }
    // Ties between parallel boundary edges are not ordered by the contract: give them equal labels.
    for (size_t i = 0; i < g.edges.size(); i++)
        for (size_t j = 0; j < i; j++) {
            auto det = [&](const GEdge& e) -> int {
                bool b1 = g.bnodes.count(e.u), b2 = e.v == -1 || g.bnodes.count(e.v);
                if (b1 == b2)
                    return -1;
                return b1 ? e.v : e.u;
            };
            int a = det(g.edges[i]), b = det(g.edges[j]);
            if (a != -1 && a == b && g.edges[i].w == g.edges[j].w)
                g.edges[i].cols = g.edges[j].cols;
        }
    // observables
    int K;
    if (o.bigK == 0)
        K = g.k + r.range(0, 2);
    else if (o.bigK == 1)
        K = r.chance(1, 3) ? 64 : r.range(g.k, 64);
    else {
        static const int ks[] = {63, 64, 65, 66, 70, 100, 130, 257, 300};
        K = ks[r.below(9)];
    }
    K = std::max(K, 1);
    g.K = K;
    std::set<int> used;
    for (int c = 0; c < g.k; c++) {
        int x;
        do {
            x = (o.bigK && r.chance(1, 3)) ? K - 1 - (int)r.below(3) : r.range(0, K - 1);
            if (x < 0)
                x = 0;
        } while (used.count(x) && (int)used.size() < K);
        used.insert(x);
        g.colobs.push_back(x);
    }
    return g;
}

// A long chain or ring with a few shortcuts: with a large scale, distances far beyond 32 bits.
inline GGraph gen_long(Rng& r, int n, int k) {
    GGraph g;
    g.n = n;
    g.k = k;
    g.K = std::max(1, k);
    for (int c = 0; c < k; c++)
        g.colobs.push_back(c);
    g.scale = 1398101;
    int mode = r.range(0, 2);
    std::set<std::pair<int, int>> have;
    auto add = [&](int u, int v, int w) {
        if (u == v || !have.insert({std::min(u, v), std::max(u, v)}).second)
            return;
        GEdge e{u, v, w, {}};
        for (int c = 0; c < k; c++)
            if (r.chance(1, 4))
                e.cols.push_back(c);
        g.edges.push_back(e);
    };
    for (int i = 0; i + 1 < n; i++)
        add(i, i + 1, mode == 0 ? 12 : mode == 1 ? r.range(8, 12) : r.range(1, 12));
    if (r.chance(1, 2))
        add(0, n - 1, r.range(8, 12));
    int extra = r.range(0, 4);
    for (int i = 0; i < extra; i++) {
        int a = r.range(0, n - 1), d = r.range(2, 4);
        if (a + d < n)
            add(a, a + d, r.range(8, 12));
    }
    if (r.chance(1, 2))
        add(r.range(0, n - 1), -1, r.range(1, 12));
    r.shuffle(g.edges);
    return g;
}

// An odd ring with everything in it excited and one more node far away: the whole ring becomes one blossom.
inline GGraph gen_ring(Rng& r, int n, int k) {
    GGraph g;
    n |= 1;
    g.n = n + 1;
    g.k = k;
    g.K = std::max(1, k);
    for (int c = 0; c < k; c++)
        g.colobs.push_back(c);
    std::vector<int> perm(g.n);
    for (int i = 0; i < g.n; i++)
        perm[i] = i;
    r.shuffle(perm);
    auto add = [&](int u, int v, int w) {
        GEdge e{perm[u], v < 0 ? v : perm[v], w, {}};
        for (int c = 0; c < k; c++)
            if (r.chance(1, 4))
                e.cols.push_back(c);
        g.edges.push_back(e);
    };
    int far = r.range(20, 400);
    bool even = r.chance(1, 2);
    for (int i = 0; i < n; i++)
        add(i, (i + 1) % n, !even && r.chance(1, 60) ? 2 : 1);
    add(r.range(0, n - 1), n, far);
    if (r.chance(1, 3))
        add(r.range(0, n), -1, far + r.range(0, 40));
    r.shuffle(g.edges);
    return g;
}

// A crowd of c edges beside the graph.
inline void put_in_crowd(Rng& r, GGraph& g, int c) {
    bool neg = g.has_neg();
    int maxw = r.chance(1, 2) ? 2 : 30;
    for (int left = c; left > 0;) {
        GGraph::Run q{std::min(left, c > 10000 ? c / r.range(1, 4) : r.range(1, 150)), r.range(0, maxw), {}, r.chance(1, 3)};
        if (neg && r.chance(1, 2))
            q.w = -q.w;
        for (int x = 0; x < g.k; x++)
            if (r.chance(1, 3))
                q.cols.push_back(x);
        g.runs.push_back(q);
        left -= q.count;
    }
    g.host_n = g.n + r.range(0, 10);
    for (auto& q : g.runs)
        g.host_n += q.count * (2 - q.single);
    std::vector<int> idx(g.host_n);
    for (int i = 0; i < g.host_n; i++)
        idx[i] = i;
    if (r.chance(3, 4))
        r.shuffle(idx);
    else if (r.chance(1, 2))
        std::reverse(idx.begin(), idx.end());
    size_t p = 0;
    for (int v = 0; v < g.n; v++) {
        g.place.push_back(idx[p]);
        g.name_of[idx[p++]] = v;
    }
    for (auto& q : g.runs)
        for (int i = 0; i < q.count; i++) {
            GEdge e{idx[p], q.single ? -1 : idx[p + 1], q.w, q.cols};
            for (int x = 0; x < 2 - q.single; x++)
                g.member_of[idx[p++]] = (int)g.members.size();
            g.members.push_back(e);
        }
    g.pads = g.members;
    r.shuffle(g.pads);
    int style = r.range(0, 2);
    for (size_t i = 0; i < g.pads.size(); i++)
        g.pad_after.push_back(style == 0 ? 0 : style == 1 ? (int)g.edges.size() : r.range(0, (int)g.edges.size()));
    std::sort(g.pad_after.begin(), g.pad_after.end());
}
// Hands edges over as chains of up to c pieces.
inline void put_in_chains(Rng& r, GGraph& g, int lo, int hi, int most) {
    bool neg = g.has_neg();
    g.chains.resize(g.edges.size());
    std::set<int> both;  // nodes with an edge to a boundary node
    for (auto& e : g.edges) {
        if (e.v != -1 && g.bnodes.count(e.v))
            both.insert(e.u);
        if (g.bnodes.count(e.u))
            both.insert(e.v);
    }
    std::vector<int> len(g.edges.size(), 0);
    int total = 0, pick = r.range(1, 3);
    for (size_t i = 0; i < g.edges.size() && most > 0; i++) {
        auto& e = g.edges[i];
        // parallel edges to the boundary would no longer be parallel
        if (e.u == e.v || g.bnodes.count(e.u) || (e.v != -1 && g.bnodes.count(e.v)) || (e.v == -1 && both.count(e.u)))
            continue;
        if (hi < 10000 && !r.chance(pick, 3))
            continue;
        len[i] = r.range(lo, hi);
        total += len[i] - 1;
        most--;
    }
    g.host_n = g.n + total + r.range(0, 10);
    std::vector<int> idx(g.host_n);
    for (int i = 0; i < g.host_n; i++)
        idx[i] = i;
    if (r.chance(1, 2))
        r.shuffle(idx);
    else if (r.chance(1, 2))
        std::reverse(idx.begin(), idx.end());
    size_t p = 0;
    for (int v = 0; v < g.n; v++) {
        g.place.push_back(idx[p]);
        g.name_of[idx[p++]] = v;
    }
    for (size_t i = 0; i < g.edges.size(); i++) {
        int m = len[i];
        if (!m)
            continue;
        auto& e = g.edges[i];
        std::vector<GEdge>& ch = g.chains[i];
        int from = g.place[e.u];
        for (int j = 0; j < m; j++) {
            int to = j + 1 < m ? idx[p++] : e.v == -1 ? -1 : g.place[e.v];
            ch.push_back({from, to, 0, {}});
            from = to;
        }
        // weights that add up to that of the edge
        int style = r.range(0, 2), left = std::abs(e.w), sg = e.w < 0 ? -1 : 1;
        if (style == 0)
            ch[r.below(m)].w = e.w;
        else {
            int each = style == 1 ? left / m : 0;
            for (auto& q : ch) {
                q.w = sg * each;
                left -= each;
            }
            while (left > 0) {
                int x = std::min(left, r.range(1, std::max(1, left / 5)));
                ch[r.below(m)].w += sg * x;
                left -= x;
            }
        }
        if (neg && std::abs(e.w) < (1 << 23) && r.chance(1, 2))
            for (int t = r.range(1, 5); t > 0; t--) {
                int x = r.range(1, 1000);
                ch[r.below(m)].w += x;
                ch[r.below(m)].w -= x;
            }
        for (int c : e.cols)
            ch[r.below(m)].cols.push_back(c);
        for (int t = g.k ? r.range(0, 6) : 0; t > 0; t--) {
            int c = r.range(0, g.k - 1);
            ch[r.below(m)].cols.push_back(c);
            ch[r.below(m)].cols.push_back(c);
        }
        for (auto& q : ch)
            g.piece_of[{std::min(q.u, q.v), std::max(q.u, q.v)}] = (int)i;
    }
}
// Puts the graph into a larger one. mode 1: up to 1300 nodes, some of them with hundreds of neighbours;
// mode 2: up to 200000 nodes; mode 3: with a crowd of hundreds of edges; mode 4: with one beyond 65536;
// mode 5: edges as chains of up to hundreds of pieces; mode 6: one beyond 65536.
inline void put_in_host(Rng& r, GGraph& g, int mode) {
    if (!mode)
        return;
    if (mode >= 5) {
        put_in_chains(r, g, mode == 5 ? 2 : 66000, mode == 5 ? r.range(3, 400) : 70000, mode == 5 ? 1000 : 1);
        return;
    }
    if (mode >= 3) {
        put_in_crowd(r, g, mode == 3 ? r.range(60, 700) : r.range(66000, 70000));
        return;
    }
    int step = mode == 1 ? 256 : 65536, high = mode == 1 ? r.range(2, 4) : r.range(1, 2);
    g.host_n = step * (high + 1);
    int lows = r.range(1, 3) * ((g.n + high) / (high + 1)) + 1;
    std::set<int> used;
    int first = r.range(0, step - lows);
    for (int v = 0; v < g.n; v++) {
        int x;
        do
            x = r.range(0, high) * step + first + r.range(0, lows - 1);
        while (!used.insert(x).second);
        g.place.push_back(x);
        g.name_of[x] = v;
    }
    if (mode == 1) {
        int free = 0;
        auto leaf = [&]() {
            while (free < g.host_n && used.count(free))
                free++;
            return free < g.host_n ? free++ : -1;
        };
        int hubs = r.range(1, 2), maxw = r.chance(1, 2) ? 3 : 1000;
        for (int h = 0; h < hubs; h++) {
            int v = r.range(0, g.n - 1), c = r.range(240, 320);
            for (int i = 0; i < c; i++) {
                int l = leaf();
                if (l < 0)
                    break;
                GEdge e{g.place[v], l, r.range(0, maxw), {}};
                if (r.chance(1, 2))
                    std::swap(e.u, e.v);
                for (int q = 0; q < g.k; q++)
                    if (r.chance(1, 3))
                        e.cols.push_back(q);
                g.pads.push_back(e);
            }
        }
        int style = r.range(0, 2);  // before, after or in between
        for (size_t i = 0; i < g.pads.size(); i++)
            g.pad_after.push_back(style == 0 ? 0 : style == 1 ? (int)g.edges.size() : r.range(0, (int)g.edges.size()));
        std::sort(g.pad_after.begin(), g.pad_after.end());
    }
}

// Effective edges: what the contract says the graph means (see Matching.tla, EffEdges).
struct EffEdge {
    int u, v, w;
    uint32_t mask;  // detectors, then observable columns shifted by n
    std::vector<int> cols;
};
inline std::vector<EffEdge> effective(const GGraph& g) {
    std::vector<EffEdge> out;
    std::map<int, EffEdge> bnd;
    for (auto& e : g.edges) {
        bool b1 = g.bnodes.count(e.u), b2 = e.v == -1 || g.bnodes.count(e.v);
        uint32_t om = 0;
        for (int c : e.cols)
            om ^= 1u << (g.n + c);
        if (b1 && b2)
            continue;
        if (!b1 && !b2) {
            uint32_t m = om;
            m ^= 1u << e.u;
            m ^= 1u << e.v;
            out.push_back({e.u, e.v, e.w, m, e.cols});
        } else {
            int d = b1 ? e.v : e.u;
            EffEdge x{d, -1, e.w, om ^ (1u << d), e.cols};
            if (!bnd.count(d) || bnd[d].w > e.w)
                bnd[d] = x;
        }
    }
    for (auto& kv : bnd)
        out.push_back(kv.second);
    return out;
}
const long long GINF = 1LL << 60;
inline std::vector<long long> min_table(int bits, const std::vector<EffEdge>& es, bool interior = false) {
    std::vector<long long> t(1u << bits, GINF), t2;
    t[0] = 0;
    for (auto& e : es) {
        if (interior && e.v == -1)
            continue;
        t2 = t;
        for (uint32_t x = 0; x < t.size(); x++) {
            long long y = t[x ^ e.mask];
            if (y < GINF && y + e.w < t2[x])
                t2[x] = y + e.w;
        }
        t.swap(t2);
    }
    return t;
}
#endif
