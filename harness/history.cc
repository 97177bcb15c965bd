// Sequences of calls to one decoder: plain, rejected and correlated decodes of every kind, path queries
// and reweightings. For every call the answer, the answer of a freshly built decoder, and what is left
// behind are recorded. Judged by DecoderHistory.tla (mode "fresh") and CorrelatedTrace.tla (mode "corr").
#include "ugbuild.h"
using namespace pm;

struct Rule {
    int e, f, w;
};

// the library's names for the ends of edge f, where the members of the crowd come after the edges
static std::pair<long long, long long> lib_edge(const GGraph& g, int f) {
    if (f < (int)g.edges.size())
        return {(long long)g.at(g.edges[f].u), g.edges[f].v == -1 ? -1 : (long long)g.at(g.edges[f].v)};
    auto& m = g.members[f - g.edges.size()];
    return {m.u, m.v};
}
// the graph as the decoder sees it: an edge to a boundary node is a boundary edge, one between two of them nothing
static GGraph seen(GGraph g) {
    for (auto& e : g.edges) {
        bool b1 = g.bnodes.count(e.u), b2 = e.v == -1 || g.bnodes.count(e.v);
        if (b1 && b2)
            e = {e.u, e.u, 1, {}};
        else if (b1)
            e = {e.v, -1, e.w, e.cols};
        else if (b2)
            e = {e.u, -1, e.w, e.cols};
    }
    return g;
}
static UserGraph build(const GGraph& g, const std::vector<Rule>& rules) {
    auto ug = build_user_graph(g);
    std::vector<UserEdge*> ptr;
    for (auto& e : ug.edges)
        if (g.member_of.count((int)e.node1))
            continue;
        else if (g.name((long long)e.node1) < g.n && (e.node2 == SIZE_MAX || g.name((long long)e.node2) < g.n))
            ptr.push_back(&e);
    ptr.resize(g.edges.size() + g.members.size());
    for (auto& e : ug.edges) {
        auto it = g.member_of.find((int)e.node1);
        if (it != g.member_of.end())
            ptr[g.edges.size() + it->second] = &e;
    }
    for (auto& r : rules) {
        auto t = lib_edge(g, r.f);
        size_t a = (size_t)t.first, b = t.second == -1 ? SIZE_MAX : (size_t)t.second;
        if (b < a)
            std::swap(a, b);
        ptr[r.e]->implied_weights_for_other_edges.push_back({a, b, (double)r.w});
    }
    return ug;
}

struct Out {
    int st = 9;
    long long w = 0, o = 0, x = 0;
    std::vector<std::array<long long, 3>> list;
    std::vector<std::pair<long long, long long>> crowd;
    bool operator==(const Out& b) const {
        auto c = crowd, d = b.crowd;
        std::sort(c.begin(), c.end());
        std::sort(d.begin(), d.end());
        return st == b.st && w == b.w && o == b.o && x == b.x && list == b.list && c == d;
    }
    std::string json() const {
        std::vector<std::string> v;
        for (auto& p : list)
            v.push_back("[" + J::num32(p[0]) + "," + J::num32(p[1]) + "," + J::num32(p[2]) + "]");
        return J().n("st", st).n("w", w).n("o", o).n("x", x).kv("l", J::raw(v)).kv("c", GGraph::intervals(crowd)).done();
    }
};

static void columns(const GGraph& g, const std::vector<uint8_t>& obs, Out& a) {
    std::set<int> used;
    for (int c = 0; c < g.k; c++) {
        used.insert(g.colobs[c]);
        if (obs[g.colobs[c]] == 1)
            a.o |= 1LL << c;
        else if (obs[g.colobs[c]] != 0)
            a.x++;
    }
    for (size_t i = 0; i < obs.size(); i++)
        if (obs[i] && !used.count((int)i))
            a.x++;
}

enum { K_DEC, K_DEC64, K_PAIRS, K_EDGES, K_CDEC, K_CDEC64, K_CEDGES, K_PATH, K_COUNT };
static const char* NAMES[] = {"dec", "dec64", "pairs", "edges", "cdec", "cdec64", "cedges", "path"};

static Out call(UserGraph& ug, const GGraph& g, int kind, const std::vector<uint64_t>& names, size_t t) {
    Out x;
    std::vector<uint64_t> ev;
    if (kind != K_PATH && t % 2)
        g.excite(t, ev);
    for (auto e : names)
        ev.push_back(e >= (uint64_t)g.n ? g.size() + (e - g.n) : g.at((int)e));
    if (kind != K_PATH && t % 2 == 0)
        g.excite(t, ev);
    auto& m = ug.get_mwpm_with_search_graph();
    auto sorted_edges = [&](const std::vector<int64_t>& ed) {
        for (auto& p : g.collapse(ed)) {
            long long a = g.name(p.first), b = g.name(p.second), mem = g.member(p.first, p.second);
            if (mem >= 0) {
                x.crowd.push_back({mem, 0});
                continue;
            }
            if (b != -1 && b < a)
                std::swap(a, b);
            x.list.push_back({a, b, 0});
        }
        if (ed.size() % 2)
            x.x++;
        std::sort(x.list.begin(), x.list.end());
    };
    try {
        if (kind == K_DEC || kind == K_CDEC) {
            std::vector<uint8_t> obs(g.K + 8, 0);
            bool preset = ev.size() % 3 == 1;  // the answer is added to what is there
            total_weight_int w = preset ? 4321 : 0;
            if (preset)
                for (size_t i = 0; i < obs.size(); i += 3)
                    obs[i] = 1;
            decode_detection_events(m, ev, obs.data(), w, kind == K_CDEC);
            x.w = preset ? w - 4321 : w;
            if (preset)
                for (size_t i = 0; i < obs.size(); i += 3)
                    obs[i] ^= 1;
            columns(g, obs, x);
        } else if (kind == K_DEC64 || kind == K_CDEC64) {
            auto r = decode_detection_events_for_up_to_64_observables(m, ev, kind == K_CDEC64);
            std::vector<uint8_t> obs(64, 0);
            for (int i = 0; i < 64; i++)
                obs[i] = (r.obs_mask >> i) & 1;
            x.w = r.weight;
            columns(g, obs, x);
        } else if (kind == K_PAIRS) {
            decode_detection_events_to_match_edges(m, ev);
            for (auto& e : m.flooder.match_edges) {
                long long a = g.name(e.loc_from - &m.flooder.graph.nodes[0]), b = e.loc_to ? g.name(e.loc_to - &m.flooder.graph.nodes[0]) : -1;
                long long mem = g.member(e.loc_from - &m.flooder.graph.nodes[0], e.loc_to ? e.loc_to - &m.flooder.graph.nodes[0] : -1);
                if (mem >= 0) {
                    x.crowd.push_back({mem, (long long)(e.obs_mask & 0xFFFFF)});
                    continue;
                }
                if (b != -1 && b < a)
                    std::swap(a, b);
                x.list.push_back({a, b, (long long)(e.obs_mask & 0xFFFFF)});
            }
            std::sort(x.list.begin(), x.list.end());
        } else if (kind == K_EDGES) {
            std::vector<int64_t> ed;
            decode_detection_events_to_edges(m, ev, ed);
            sorted_edges(ed);
        } else if (kind == K_CEDGES) {
            std::vector<int64_t> ed;
            decode_detection_events_to_edges_with_edge_correlations(m, ev, ed);
            sorted_edges(ed);
        } else {
            std::vector<size_t> ns;
            ug.get_nodes_on_shortest_path_from_source(ev.empty() ? SIZE_MAX : ev[0], ev.size() < 2 ? SIZE_MAX : ev[1], ns);
            for (auto v : g.collapse_path(ns))
                x.list.push_back({g.name((long long)v), 0, 0});
        }
        x.st = 0;
    } catch (const std::invalid_argument&) {
        x = Out();
        x.st = 1;
    } catch (const std::exception&) {
        x = Out();
        x.st = 2;
    }
    return x;
}

static void lower(GGraph& h, const Rule& x) {
    int m = (int)h.edges.size();
    int& w = x.f < m ? h.edges[x.f].w : h.members[x.f - m].w;
    w = std::min(w, x.w);
}

int main(int argc, char** argv) {
    Args A(argc, argv);
    FILE* out = fopen(A.s("--out", "/dev/stdout").c_str(), "w");
    uint64_t seed = A.i("--seed", 1);
    bool corr = A.s("--mode", "fresh") == "corr";
    long long emit_every = A.i("--emit-every", 10);
    int len = (int)A.i("--len", 12);
    GenOpt o;
    o.max_n = A.i("--n", 6);
    o.min_n = A.i("--min-n", 2);
    o.k = A.i("--k", 2);
    o.neg = A.i("--neg", 0);
    o.bnode = A.i("--bnode", 15);
    o.bigK = A.i("--bigk", 0);
    o.maxw = A.i("--maxw", 0);
    o.maxedges = A.i("--maxedges", 100);
    int host = (int)A.i("--host", 0);
    long long many = A.i("--many", 0);
    struct Stat {
        long long histories, calls, suspicious, emitted;
    };
    auto* st = shared_stat<Stat>();
    auto make = [&](Rng& r, GGraph& g, std::vector<Rule>& rules) {
        g = gen_graph(r, o);
        if (!g.bnodes.empty() && (corr || r.chance(1, 2))) {  // at most one boundary edge for each detector
            std::set<int> has;
            std::vector<GEdge> keep;
            auto s = seen(g);
            for (size_t i = 0; i < g.edges.size(); i++)
                if (s.edges[i].v != -1 || has.insert(s.edges[i].u).second)
                    keep.push_back(g.edges[i]);
            g.edges = keep;
        }
        put_in_host(r, g, host);
        auto sg = seen(g);
        std::multiset<int> bd;
        for (auto& e : sg.edges)
            if (e.v == -1)
                bd.insert(e.u);
        bool negloop = false;
        for (auto& e : g.edges)
            negloop |= e.u == e.v && e.w < 0;
        bool simple = bd.size() == std::set<int>(bd.begin(), bd.end()).size() && !negloop && g.chains.empty();
        int m = (int)g.edges.size(), all = m + (int)g.members.size();
        if (simple && m > 1) {
            int cnt = r.range(0, 3 * m);
            auto pick = [&]() { return all > m && r.chance(1, 2) ? r.range(m, all - 1) : r.range(0, m - 1); };
            auto loop = [&](int e) { return e < m && sg.edges[e].u == sg.edges[e].v; };
            auto raw_loop = [&](int e) { return e < m && g.edges[e].u == g.edges[e].v; };
            if (all > m && r.chance(1, 4)) {  // one edge that implies something for very many
                int e = r.range(0, m - 1), c = r.range(1, std::min(all - m, 400)), f = r.range(m, all - c);
                for (int i = 0; i < c && !loop(e); i++)
                    if (g.members[f + i - m].w >= 0)
                        rules.push_back({e, f + i, r.range(0, g.members[f + i - m].w)});
            }
            if (all > m && r.chance(1, 4)) {  // many edges that imply something for one
                int f = r.range(0, m - 1), c = r.range(1, std::min(all - m, 400)), e = r.range(m, all - c);
                for (int i = 0; i < c && !raw_loop(f) && g.edges[f].w >= 0; i++)
                    rules.push_back({e + i, f, r.range(0, g.edges[f].w + 1)});
            }
            for (int i = 0; i < cnt; i++) {
                Rule x{pick(), pick(), 0};
                if (x.e == x.f || raw_loop(x.e) || raw_loop(x.f))
                    continue;
                int w = x.f < m ? g.edges[x.f].w : g.members[x.f - m].w;
                if (w < 0)
                    continue;  // not supported by the library
                x.w = r.chance(1, 4) ? 0 : r.chance(1, 5) ? std::min(w + r.range(0, 5), (1 << 24) - 1) : r.range(0, w);
                rules.push_back(x);
            }
        }
        return simple;
    };
    auto unit = [&](long long k) {
        Rng r(seed * 1000003ull + k);
        GGraph g;
        std::vector<Rule> rules;
        bool simple = make(r, g, rules);
        const GGraph sg = seen(g);
        auto ug = build(g, rules);
        auto& m = ug.get_mwpm_with_search_graph();
        double norm = m.flooder.graph.normalising_constant;
        auto wm0 = weights_of(m.flooder.graph), ws0 = weights_of(m.search_flooder.graph);
        // in terms of the graph, without what surrounds it
        auto named = [&](std::vector<std::array<long long, 3>> w) {
            if (g.place.empty())
                return w;
            std::vector<std::array<long long, 3>> x;
            for (auto& e : w)
                if (g.name(e[0]) < g.n && g.name(e[1]) < g.n)
                    x.push_back({g.name(e[0]), g.name(e[1]), e[2]});
            std::sort(x.begin(), x.end());
            return x;
        };
        std::vector<std::string> lines;
        std::vector<std::string> rj;
        for (auto& x : rules)
            rj.push_back("[" + std::to_string(x.e + 1) + "," + std::to_string(x.f + 1) + "," + std::to_string(x.w) + "]");
        lines.push_back(J().kv("kind", J::str("begin")).n("id", k).kv("g", g.json()).kv("rules", J::raw(rj)).n("norm", (long long)norm)
                            .kv("wm", weights_json(named(wm0))).kv("ws", weights_json(named(ws0))).done());
        bool sus = !residue(m).clean();
        // a decoder that has answered very often: a few calls, again and again
        if (many) {
            struct Call {
                int kind;
                std::vector<uint64_t> ev;
                std::vector<long long> evl;
                Out f;
            };
            std::vector<Call> pool;
            for (int i = r.range(1, 30); i > 0; i--) {
                Call c;
                do {
                    c.kind = corr ? (r.chance(1, 5) ? K_EDGES : r.range(K_CDEC, K_CEDGES)) : r.range(0, K_COUNT - 1);
                } while ((g.K > 64 && (c.kind == K_DEC64 || c.kind == K_CDEC64)) || (!simple && c.kind >= K_CDEC && c.kind <= K_CEDGES) ||
                         (c.kind == K_PATH && g.has_neg()));
                int p = r.range(1, 3);
                for (int v = 0; v < g.n; v++)
                    if (r.chance(p, 4))
                        c.ev.push_back(v);
                if (r.chance(2, 3) && c.ev.size() % 2 == 1)
                    c.ev.pop_back();
                r.shuffle(c.ev);
                if (r.chance(1, 8))
                    c.ev.push_back((uint64_t)g.n);
                for (auto e : c.ev)
                    c.evl.push_back((long long)e);
                auto ug2 = build(g, rules);
                c.f = call(ug2, g, c.kind, c.ev, 0);
                pool.push_back(c);
            }
            int bad = 0;
            for (long long s = 0; s < many && bad < 4; s++) {
                auto& c = pool[r.below(pool.size())];
                progress()->sub = s;
                note(std::string("{\"call\":\"") + NAMES[c.kind] + "\",\"ev\":" + J::arr(c.evl) + ",\"after\":" + std::to_string(s) + "}");
                Out a = call(ug, g, c.kind, c.ev, 0);
                auto rs = residue(m);
                auto wm = weights_of(m.flooder.graph), ws = weights_of(m.search_flooder.graph);
                bool same = wm == wm0 && ws == ws0, odd = !(a == c.f) || !same || !rs.clean();
                st->calls++;
                sus |= odd;
                bad += odd;
                if (odd || s < 3 || (s >= 255 && s < 259) || (s >= 65535 && s < 65539) || s + 1 == many)
                    lines.push_back(J().kv("kind", J::str("step")).n("mv", 0).kv("op", J::str(NAMES[c.kind])).kv("ev", J::arr(c.evl)).n("t", 0)
                                        .kv("a", a.json()).kv("f", c.f.json()).kv("wm", "[]").kv("ws", "[]").kv("res", rs.json())
                                        .kv("wm2", same ? "[]" : weights_json(named(wm) == named(wm0) ? wm : named(wm)))
                                        .kv("ws2", same ? "[]" : weights_json(named(ws) == named(ws0) ? ws : named(ws))).n("same", same).n("after", s).done());
            }
        }
        auto eff = effective(g);
        for (int s = 0; s < len && !many; s++) {
            // events
            std::vector<uint64_t> ev;
            int p = r.range(1, 3);
            for (int i = 0; i < g.n; i++)
                if (r.chance(p, 4))
                    ev.push_back(i);
            if (r.chance(1, 2) && ev.size() % 2 == 1)
                ev.pop_back();
            r.shuffle(ev);
            if (r.chance(1, 8)) {
                uint64_t bad = r.chance(1, 2) ? (uint64_t)g.n : g.n + r.below(100);
                ev.insert(ev.begin() + r.below(ev.size() + 1), bad);
            }
            size_t t = g.members.empty() || r.chance(1, 10) ? 0 : r.chance(1, 3) ? (size_t)r.below(g.members.size() + 1) : g.members.size();
            int kind;
            do {
                kind = corr ? (r.chance(1, 5) ? K_EDGES : r.range(K_CDEC, K_CEDGES)) : r.range(0, K_COUNT - 1);
            } while ((g.K > 64 && (kind == K_DEC64 || kind == K_CDEC64)) || (!simple && kind >= K_CDEC && kind <= K_CEDGES) ||
                     (kind == K_PATH && g.has_neg()));
            J j;
            j.kv("kind", J::str("step"));
            int moved = r.chance(1, 8) ? r.range(1, 2) : 0;  // the decoder, or the graph with it, changes hands
            if (moved) {
                note("move");
                if (moved == 1) {
                    Mwpm tmp(std::move(m));
                    m = std::move(tmp);
                } else {
                    UserGraph tmp(std::move(ug));
                    ug = std::move(tmp);
                }
            }
            j.n("mv", moved);
            std::vector<long long> evl;
            for (auto e : ev)
                evl.push_back(std::min<long long>((long long)e, 2000000));
            if (corr && simple && r.chance(1, 4)) {
                // Reweighting by hand, several times, then undone.
                int times = r.range(1, 3);
                std::vector<int64_t> ed;
                std::vector<int> idx;
                int dense = r.range(1, 6);
                for (int t = 0; t < times; t++)
                    for (size_t i = 0; i < g.edges.size() + g.members.size(); i++)
                        if (r.chance(i < g.edges.size() ? 2 : dense, 6)) {
                            auto le = lib_edge(sg, (int)i);
                            if (le.first == le.second)
                                continue;
                            bool sw = le.second != -1 && r.chance(1, 2);
                            ed.push_back(sw ? le.second : le.first);
                            ed.push_back(sw ? le.first : le.second);
                            idx.push_back((int)i + 1);
                        }
                if (g.members.size() && r.chance(1, 2)) {  // the edges of the graph last
                    size_t c = 0;
                    for (size_t i = 0; i < idx.size(); i++)
                        if (idx[i] <= (int)g.edges.size()) {
                            std::swap(ed[2 * c], ed[2 * i]);
                            std::swap(ed[2 * c + 1], ed[2 * i + 1]);
                            std::swap(idx[c], idx[i]);
                            c++;
                        }
                    for (size_t i = 0; i < idx.size() / 2; i++) {
                        size_t z = idx.size() - 1 - i;
                        std::swap(ed[2 * z], ed[2 * i]);
                        std::swap(ed[2 * z + 1], ed[2 * i + 1]);
                        std::swap(idx[z], idx[i]);
                    }
                }
                note("reweight");
                m.flooder.graph.reweight_for_edges(ed);
                m.search_flooder.graph.reweight_for_edges(ed);
                j.kv("op", J::str("reweight")).kv("idx", J::arr(idx));
                j.kv("wm", weights_json(named(weights_of(m.flooder.graph)))).kv("ws", weights_json(named(weights_of(m.search_flooder.graph))));
                {
                    std::map<std::pair<int, int>, long long> want;
                    auto key = [](int a, int b) { return b == -1 ? std::make_pair(a, -1) : std::make_pair(std::min(a, b), std::max(a, b)); };
                    for (auto& e : sg.edges)
                        want[key(e.u, e.v)] = 2LL * std::abs(e.w);
                    for (int i : idx)
                        for (auto& x : rules)
                            if (x.e == i - 1 && x.f < (int)g.edges.size()) {
                                auto& t = want[key(sg.edges[x.f].u, sg.edges[x.f].v)];
                                t = std::min(t, 2LL * x.w);
                            }
                    for (int side = 0; side < 2; side++)
                        for (auto& x : named(side ? weights_of(m.search_flooder.graph) : weights_of(m.flooder.graph)))
                            if (want[key((int)x[0], (int)x[1])] != x[2])
                                sus = true;
                }
                m.flooder.graph.undo_reweights();
                m.search_flooder.graph.undo_reweights();
            } else {
                note(std::string("{\"call\":\"") + NAMES[kind] + "\",\"ev\":" + J::arr(evl) + "}");
                Out a = call(ug, g, kind, ev, t);
                auto ug2 = build(g, rules);
                Out b = call(ug2, g, kind, ev, t);
                if (!(a == b))
                    sus = true;
                if (kind >= K_CDEC && kind <= K_CEDGES && a.st == 0 && g.n + g.k <= 16) {
                    // selection: the two passes done by hand
                    auto ug3 = build(g, {});
                    Out e1 = call(ug3, g, K_EDGES, ev, t);
                    GGraph h = sg;
                    for (auto& p1 : e1.crowd)
                        for (auto& x : rules)
                            if (x.e == (int)(g.edges.size() + p1.first))
                                lower(h, x);
                    for (auto& p1 : e1.list)
                        for (size_t i = 0; i < sg.edges.size(); i++) {
                            auto& e = sg.edges[i];
                            if ((e.u == p1[0] && e.v == p1[1]) || (e.v != -1 && e.v == p1[0] && e.u == p1[1]))
                                for (auto& x : rules)
                                    if (x.e == (int)i)
                                        lower(h, x);
                        }
                    auto tab = min_table(g.n + g.k, effective(h));
                    uint32_t sm = 0;
                    for (auto e : ev)
                        if (!g.bnodes.count((int)e))
                            sm ^= 1u << e;
                    long long best = GINF;
                    for (uint32_t q = 0; q < (1u << g.k); q++)
                        best = std::min(best, tab[sm | (q << g.n)]);
                    if (kind == K_CEDGES) {
                        long long tot = 0;
                        for (auto& p1 : a.list)
                            for (auto& e : h.edges)
                                if ((e.u == p1[0] && e.v == p1[1]) || (e.v != -1 && e.v == p1[0] && e.u == p1[1]))
                                    tot += e.w;
                        if (tot != best || a.crowd.size() != t)
                            sus = true;
                    } else if ((double)a.w != norm * (best + h.crowd_weight(t)) || tab[sm | (((uint32_t)a.o ^ g.crowd_labels(t)) << g.n)] != best || a.x)
                        sus = true;
                }
                j.kv("op", J::str(NAMES[kind])).kv("ev", J::arr(evl)).n("t", (long long)t).kv("a", a.json()).kv("f", b.json());
                j.kv("wm", "[]").kv("ws", "[]");
            }
            auto rs = residue(m);
            auto wm = weights_of(m.flooder.graph), ws = weights_of(m.search_flooder.graph);
            bool same = wm == wm0 && ws == ws0;
            if (!same || !rs.clean())
                sus = true;
            j.kv("res", rs.json()).kv("wm2", same ? "[]" : weights_json(named(wm) == named(wm0) ? wm : named(wm)))
                .kv("ws2", same ? "[]" : weights_json(named(ws) == named(ws0) ? ws : named(ws))).n("same", same);
            lines.push_back(j.done());
            st->calls++;
        }
        st->histories++;
        if (sus)
            st->suspicious++;
        if (sus || k % emit_every == 0 || A.i("--only", -1) >= 0) {
            st->emitted++;
            for (auto& l : lines)
                fprintf(out, "%s\n", l.c_str());
        }
    };
    auto crash = [&](long long k, const std::string& why) {
        Rng r(seed * 1000003ull + k);
        GGraph g;
        std::vector<Rule> rules;
        make(r, g, rules);
        st->suspicious++;
        std::string nt = progress()->note;
        for (auto& c : nt)
            if (c == '"')
                c = '\'';
        fprintf(out, "%s\n", J().kv("kind", J::str("crash")).n("id", k).kv("g", g.json()).kv("why", J::str(why)).kv("at", J::str(nt)).done().c_str());
    };
    run_units(A, "--histories", 100, out, unit, crash);
    fclose(out);
    fprintf(stderr, "STAT {\"histories\":%lld,\"calls\":%lld,\"suspicious\":%lld,\"emitted\":%lld}\n", st->histories, st->calls, st->suspicious, st->emitted);
    return 0;
}
