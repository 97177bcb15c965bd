// Building the library's user graph from a generated one, and looking at what a decoder is left with
// between calls.
#ifndef VERIF_UGBUILD_H
#define VERIF_UGBUILD_H
#include "graphgen.h"
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "pymatching/sparse_blossom/driver/user_graph.h"

inline pm::UserGraph build_user_graph(const GGraph& g) {
    pm::UserGraph ug(g.size(), (size_t)g.K);
    auto add = [&](size_t u, size_t v, const GEdge& e) {
        std::vector<size_t> obs;
        for (int c : e.cols)
            obs.push_back((size_t)g.colobs[c]);
        if (e.v == -1)
            ug.add_or_merge_boundary_edge(u, obs, (double)e.w * g.scale, -1);
        else
            ug.add_or_merge_edge(u, v, obs, (double)e.w * g.scale, -1);
    };
    size_t p = 0;
    for (size_t i = 0; i <= g.edges.size(); i++) {
        for (; p < g.pads.size() && g.pad_after[p] <= (int)i; p++)
            add((size_t)g.pads[p].u, (size_t)g.pads[p].v, g.pads[p]);
        if (i < g.chains.size() && !g.chains[i].empty())
            for (auto& q : g.chains[i])
                add((size_t)q.u, (size_t)q.v, q);
        else if (i < g.edges.size())
            add(g.at(g.edges[i].u), g.at(g.edges[i].v), g.edges[i]);
    }
    std::set<size_t> b;
    for (int v : g.bnodes)
        b.insert(g.at(v));
    ug.set_boundary(b);
    return ug;
}

// Everything a decode or a search may leave behind, as a list of counts that must all be zero.
struct Residue {
    // pending events, occupied nodes, nodes with other leftovers, scheduled look-ats, leaked regions,
    // leaked tree nodes | pending search events, reached search nodes, scheduled search look-ats,
    // marked edges, pending reweights
    long long v[11];
    std::string json() const {
        std::vector<long long> x(v, v + 11);
        return J::arr(x);
    }
    bool clean() const {
        for (auto x : v)
            if (x)
                return false;
        return true;
    }
};
inline Residue residue(pm::Mwpm& m) {
    Residue r;
    for (auto& x : r.v)
        x = 0;
    r.v[0] = (long long)m.flooder.queue.size();
    for (auto& n : m.flooder.graph.nodes) {
        r.v[1] += n.region_that_arrived != nullptr || n.region_that_arrived_top != nullptr;
        r.v[2] += n.reached_from_source != nullptr || n.radius_of_arrival != 0;
        r.v[3] += n.node_event_tracker.has_queued_time;
    }
    r.v[4] = (long long)m.flooder.region_arena.allocated.size() - (long long)m.flooder.region_arena.available.size();
    r.v[5] = (long long)m.node_arena.allocated.size() - (long long)m.node_arena.available.size();
    r.v[6] = (long long)m.search_flooder.queue.size();
    for (auto& n : m.search_flooder.graph.nodes) {
        r.v[7] += n.reached_from_source != nullptr;
        r.v[8] += n.node_event_tracker.has_queued_time;
        for (auto x : n.neighbor_markers)
            r.v[9] += x & pm::FLIPPED;
    }
    r.v[10] = (long long)m.flooder.graph.previous_weights.size() + (long long)m.search_flooder.graph.previous_weights.size();
    return r;
}

// The edge weights both graphs hold, as [u, v, weight] sorted; v = -1 for the boundary.
inline std::vector<std::array<long long, 3>> weights_of(pm::MatchingGraph& g) {
    std::vector<std::array<long long, 3>> out;
    for (size_t u = 0; u < g.nodes.size(); u++)
        for (size_t k = 0; k < g.nodes[u].neighbors.size(); k++) {
            auto* t = g.nodes[u].neighbors[k];
            out.push_back({(long long)u, t ? (long long)(t - &g.nodes[0]) : -1, (long long)g.nodes[u].neighbor_weights[k]});
        }
    std::sort(out.begin(), out.end());
    return out;
}
inline std::vector<std::array<long long, 3>> weights_of(pm::SearchGraph& g) {
    std::vector<std::array<long long, 3>> out;
    for (size_t u = 0; u < g.nodes.size(); u++)
        for (size_t k = 0; k < g.nodes[u].neighbors.size(); k++) {
            auto* t = g.nodes[u].neighbors[k];
            out.push_back({(long long)u, t ? (long long)(t - &g.nodes[0]) : -1, (long long)g.nodes[u].neighbor_weights[k]});
        }
    std::sort(out.begin(), out.end());
    return out;
}
inline std::string weights_json(const std::vector<std::array<long long, 3>>& w) {
    std::vector<std::string> v;
    for (auto& x : w)
        v.push_back("[" + J::num32(x[0]) + "," + J::num32(x[1]) + "," + J::num32(x[2]) + "]");
    return J::raw(v);
}
template <class T>
T* shared_stat() {
    return (T*)mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
#endif
