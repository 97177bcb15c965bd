// Records the answers of shortest-path queries (all three ways of asking) on many graphs, and what
// each query leaves behind. Judged by ShortestPath.tla.
#include "ugbuild.h"
using namespace pm;

int main(int argc, char** argv) {
    Args A(argc, argv);
    FILE* out = fopen(A.s("--out", "/dev/stdout").c_str(), "w");
    uint64_t seed = A.i("--seed", 1);
    long long emit_every = A.i("--emit-every", 10), q_emit = A.i("--q-emit", 24), q_n = A.i("--queries", 60);
    GenOpt o;
    o.max_n = A.i("--n", 8);
    o.min_n = A.i("--min-n", 1);
    o.k = 2;
    o.bnode = A.i("--bnode", 40);
    o.zero = A.i("--zero", 40);
    o.maxw = A.i("--maxw", 0);
    o.loops = 10;
    struct Stat {
        long long graphs, queries, suspicious, emitted;
    };
    auto* st = shared_stat<Stat>();
    int long_n = (int)A.i("--long", 0);
    int host = (int)A.i("--host", 0);
    auto make = [&](Rng& r) {
        GGraph g = long_n ? gen_long(r, r.range(long_n * 3 / 4, long_n), 1) : gen_graph(r, o);
        put_in_host(r, g, host);
        return g;
    };
    auto unit = [&](long long gi) {
        Rng r(seed * 1000003ull + gi);
        GGraph g = make(r);
        int n = g.n;
        // distances, only to pick interesting records
        std::vector<std::vector<long long>> d(n + 1, std::vector<long long>(n + 1, GINF));
        for (int i = 0; i <= n; i++)
            d[i][i] = 0;
        for (auto& e : effective(g))
            if (e.v >= 0) {
                d[e.u][e.v] = std::min(d[e.u][e.v], (long long)e.w);
                d[e.v][e.u] = std::min(d[e.v][e.u], (long long)e.w);
            }
        for (int k = 0; k < n; k++)
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++)
                    d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
        std::vector<long long> db(n, GINF);
        for (auto& e : effective(g))
            if (e.v == -1)
                for (int i = 0; i < n; i++)
                    db[i] = std::min(db[i], d[i][e.u] + e.w);
        auto wt = [&](int u, int v) -> long long {
            long long b = -1;
            for (auto& e : effective(g))
                if ((e.u == u && e.v == v) || (e.v == u && e.u == v))
                    b = e.w;
            return b;
        };
        auto ug = build_user_graph(g);
        auto w0 = weights_of(ug.get_mwpm_with_search_graph().search_flooder.graph);
        std::vector<std::pair<int, std::string>> recs;
        for (long long q = 0; q < q_n; q++) {
            int src = r.range(-1, n - 1), dst = r.range(-1, n - 1);
            if (r.chance(1, 15))
                src = n + r.range(0, 3);
            if (r.chance(1, 15))
                dst = n + r.range(0, 3);
            auto isb = [&](int v) { return v == -1 || g.bnodes.count(v); };
            bool inr = src < n && dst < n;
            int kind = r.range(0, 2);  // 0 nodes, 1 edges from source, 2 edges from the middle
            if (kind > 0 && (!inr || isb(src) || src == dst || (isb(dst) && dst != -1)))
                kind = 0;
            note("[" + std::to_string(kind) + "," + std::to_string(src) + "," + std::to_string(dst) + "]");
            int status = 0;
            auto lib = [&](int v) { return v == -1 ? SIZE_MAX : v >= n ? g.size() + (size_t)(v - n) : g.at(v); };
            std::vector<std::string> list;
            std::vector<std::pair<int, int>> es;
            std::vector<size_t> nodes;
            auto& mw = ug.get_mwpm_with_search_graph();
            auto& sf = mw.search_flooder;
            try {
                if (kind == 0) {
                    ug.get_nodes_on_shortest_path_from_source(
                        lib(src), lib(dst), nodes);
                    {
                        auto p = g.collapse_path(nodes);
                        nodes.assign(p.begin(), p.end());
                    }
                    for (auto& x : nodes)
                        x = (size_t)g.name((long long)x);
                    for (auto x : nodes)
                        list.push_back("[" + J::num32((long long)x) + ",0]");
                } else {
                    std::vector<int64_t> ed;
                    auto h = [&](const SearchGraphEdge& e) {
                        auto* t = e.detector_node->neighbors[e.neighbor_index];
                        ed.push_back(e.detector_node - &sf.graph.nodes[0]);
                        ed.push_back(t ? t - &sf.graph.nodes[0] : -1);
                    };
                    if (kind == 1)
                        sf.iter_edges_on_shortest_path_from_source(lib(src), lib(dst), h);
                    else
                        sf.iter_edges_on_shortest_path_from_middle(lib(src), lib(dst), h);
                    if (kind == 1 && !g.chains.empty()) {
                        // in order: as the path of nodes that it is
                        std::vector<size_t> p;
                        bool line = true, last = false;
                        for (size_t i = 0; i + 1 < ed.size(); i += 2) {
                            line = line && !last && ed[i] >= 0 && (i == 0 || ed[i - 1] == ed[i]);
                            if (i == 0)
                                p.push_back((size_t)ed[i]);
                            if (ed[i + 1] != -1)
                                p.push_back((size_t)ed[i + 1]);
                            else
                                last = true;
                        }
                        auto q = g.collapse_path(p);
                        ed.clear();
                        for (size_t i = 0; i < q.size(); i++)
                            if (i + 1 < q.size() || last) {
                                ed.push_back(line ? q[i] : (int64_t)g.size() + 1);
                                ed.push_back(i + 1 < q.size() ? q[i + 1] : -1);
                            }
                    } else if (!g.chains.empty()) {
                        auto q = g.collapse(ed);
                        ed.clear();
                        for (auto& x : q) {
                            ed.push_back(x.first);
                            ed.push_back(x.second);
                        }
                    }
                    for (size_t i = 0; i + 1 < ed.size(); i += 2) {
                        int u = (int)g.name(ed[i]), v = ed[i + 1] == -1 ? -1 : (int)g.name(ed[i + 1]);
                        es.push_back({u, v});
                        list.push_back("[" + std::to_string(u) + "," + std::to_string(v) + "]");
                    }
                }
            } catch (const std::invalid_argument&) {
                status = 1;
                list.clear();
            } catch (const std::exception&) {
                status = 2;
                list.clear();
            }
            st->queries++;
            Residue rs = residue(mw);
            bool same = weights_of(sf.graph) == w0;
            // selection
            bool sus = !rs.clean() || !same;
            bool ok = inr && !(isb(src) && isb(dst));
            long long want = GINF;
            if (ok)
                want = isb(src) ? db[dst] : isb(dst) ? db[src] : d[src][dst];
            if ((status == 0) != (want < GINF))
                sus = true;
            else if (status == 0) {
                if (kind == 0) {
                    std::vector<int> p(nodes.begin(), nodes.end());
                    if (isb(src))
                        std::reverse(p.begin(), p.end());
                    int a = isb(src) ? dst : src, b = isb(src) ? src : dst;
                    if (p.empty() || p[0] != a || (!isb(b) && p.back() != b))
                        sus = true;
                    else {
                        long long tot = 0;
                        for (size_t i = 0; i + 1 < p.size(); i++) {
                            long long w = p[i] >= 0 && p[i] < n && p[i + 1] >= 0 && p[i + 1] < n ? wt(p[i], p[i + 1]) : -1;
                            if (w < 0)
                                sus = true;
                            tot += w;
                        }
                        if (isb(b))
                            tot += wt(p.back(), -1) < 0 ? GINF : wt(p.back(), -1);
                        if (tot != want)
                            sus = true;
                    }
                } else {
                    long long tot = 0;
                    std::map<int, int> deg;
                    for (auto& e : es) {
                        if (wt(e.first, e.second) < 0)
                            sus = true;
                        tot += wt(e.first, e.second);
                        deg[e.first] ^= 1;
                        if (e.second >= 0)
                            deg[e.second] ^= 1;
                    }
                    for (auto& kv : deg)
                        if (kv.second != (kv.first == src || (kv.first == dst)))
                            sus = true;
                    if (tot != want)
                        sus = true;
                    if (kind == 1)
                        for (size_t i = 0; i < es.size(); i++)
                            if (es[i].first != (i ? es[i - 1].second : src))
                                sus = true;
                }
            }
            if (sus)
                st->suspicious++;
            recs.push_back({sus, J().n("k", kind).n("s", src).n("t", dst).n("st", status).kv("p", J::raw(list)).kv("res", rs.json()).n("w", same).done()});
        }
        st->graphs++;
        bool any = false;
        for (auto& x : recs)
            any |= x.first;
        if (any || gi % emit_every == 0 || A.i("--only", -1) >= 0) {
            st->emitted++;
            std::stable_sort(recs.begin(), recs.end(), [](const auto& x, const auto& y) { return x.first > y.first; });
            std::vector<std::string> qs;
            for (auto& x : recs)
                if ((long long)qs.size() < q_emit)
                    qs.push_back(x.second);
            fprintf(out, "%s\n", J().kv("kind", J::str("graph")).n("id", gi).kv("g", g.json()).kv("q", J::raw(qs)).done().c_str());
        }
    };
    auto crash = [&](long long gi, const std::string& why) {
        Rng r(seed * 1000003ull + gi);
        GGraph g = make(r);
        st->suspicious++;
        fprintf(out, "%s\n", J().kv("kind", J::str("crash")).n("id", gi).kv("g", g.json()).kv("why", J::str(why)).kv("at", J::str(progress()->note)).done().c_str());
    };
    run_units(A, "--graphs", 100, out, unit, crash);
    fclose(out);
    fprintf(stderr, "STAT {\"graphs\":%lld,\"queries\":%lld,\"suspicious\":%lld,\"emitted\":%lld}\n", st->graphs, st->queries, st->suspicious, st->emitted);
    return 0;
}
