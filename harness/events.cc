// Runs decodes one event at a time and records, after every advance of the flooding and after every
// event handled by the matcher, the whole state of the algorithm: regions, blossoms, alternating trees,
// matches and who owns which detector. Judged by SparseBlossomTrace.tla.
#include "pymatching/sparse_blossom/matcher/alternating_tree.h"
#include "ugbuild.h"
using namespace pm;

namespace {
struct Snap {
    long long t = 0;
    std::string regs, bl, tn, nodes;
};

struct Recorder {
    Mwpm& mw;
    const GGraph& g;
    std::vector<int> src;
    std::map<const GraphFillRegion*, int> id;
    int next_blossom = 1000;

    long long idx(const DetectorNode* n) const {
        if (!n)
            return -1;
        long long k = n - &mw.flooder.graph.nodes[0];
        return k >= 0 && k < (long long)mw.flooder.graph.nodes.size() ? g.name(k) : -7;
    }
    long long rid(const GraphFillRegion* r) const {
        if (!r)
            return -1;
        auto it = id.find(r);
        return it == id.end() ? -9 : it->second;
    }
    // in units of the generated weights
    long long sc(long long v) const {
        return v % g.scale ? 2147483647LL : v / g.scale;
    }
    long long lab(obs_int m) const {
        long long o = 0;
        for (int c = 0; c < g.k; c++) {
            if (m >> g.colobs[c] & 1)
                o |= 1LL << c;
            m &= ~((obs_int)1 << g.colobs[c]);
        }
        return m ? o | (1LL << 20) : o;
    }
    std::string edge(const CompressedEdge& e) const {
        return "[" + std::to_string(idx(e.loc_from)) + "," + std::to_string(idx(e.loc_to)) + "," + std::to_string(lab(e.obs_mask)) + "]";
    }
    // All regions there are, found upwards from the detection events.
    std::vector<GraphFillRegion*> regions() {
        std::vector<GraphFillRegion*> out;
        std::set<GraphFillRegion*> seen;
        for (int s : src) {
            GraphFillRegion* r = mw.flooder.graph.nodes[g.at(s)].region_that_arrived;
            int depth = 0;
            while (r && seen.insert(r).second && depth++ < 1000) {
                if (!id.count(r))
                    id[r] = next_blossom++;
                out.push_back(r);
                r = r->blossom_parent;
            }
        }
        return out;
    }
    Snap snap() {
        Snap s;
        auto R = regions();
        s.t = sc(mw.flooder.queue.cur_time);
        std::vector<AltTreeNode*> T;
        std::map<const AltTreeNode*, int> tid;
        auto reg = [&](AltTreeNode* n) {
            if (n && !tid.count(n)) {
                tid[n] = (int)T.size();
                T.push_back(n);
            }
        };
        for (auto* r : R)
            if (!r->blossom_parent)
                reg(r->alt_tree_node);
        for (size_t i = 0; i < T.size() && T.size() < 4000; i++) {
            reg(T[i]->parent.alt_tree_node);
            for (auto& c : T[i]->children)
                reg(c.alt_tree_node);
        }
        auto ti = [&](const AltTreeNode* n) { return n ? tid.count(n) ? tid[n] : -9 : -1; };
        std::vector<std::string> v;
        for (auto* r : R) {
            bool top = !r->blossom_parent;
            int gr = r->radius.is_growing() + 2 * r->radius.is_shrinking() + 4 * r->radius.is_frozen();
            bool free = top && !r->alt_tree_node;
            long long partner = !free ? -2 : r->match.region ? rid(r->match.region) : r->match.edge.loc_from ? -1 : -3;
            v.push_back("[" + std::to_string(rid(r)) + "," + std::to_string(rid(r->blossom_parent)) + "," +
                        std::to_string(rid(r->blossom_parent_top)) + "," + std::to_string(gr == 1 ? 1 : gr == 2 ? -1 : gr == 4 ? 0 : 9) + "," +
                        J::num32(sc(r->radius.get_distance_at_time(mw.flooder.queue.cur_time))) + "," +
                        std::to_string(top ? ti(r->alt_tree_node) : -1) + "," + std::to_string(partner) + "," +
                        (free ? edge(r->match.edge) : "[-1,-1,0]") + "]");
        }
        s.regs = J::raw(v);
        v.clear();
        for (auto* r : R)
            if (!r->blossom_children.empty()) {
                std::vector<std::string> c;
                for (auto& x : r->blossom_children)
                    c.push_back("[" + std::to_string(rid(x.region)) + "," + edge(x.edge) + "]");
                v.push_back("[" + std::to_string(rid(r)) + "," + J::raw(c) + "]");
            }
        s.bl = J::raw(v);
        v.clear();
        for (auto* n : T) {
            std::vector<std::string> c;
            for (auto& x : n->children)
                c.push_back("[" + std::to_string(ti(x.alt_tree_node)) + "," + edge(x.edge) + "]");
            bool has = n->parent.alt_tree_node != nullptr;
            v.push_back("[" + std::to_string(ti(n)) + "," + std::to_string(rid(n->inner_region)) + "," + std::to_string(rid(n->outer_region)) + "," +
                        (n->inner_region ? edge(n->inner_to_outer_edge) : "[-1,-1,0]") + "," + std::to_string(ti(n->parent.alt_tree_node)) + "," +
                        (has ? edge(n->parent.edge) : "[-1,-1,0]") + "," + J::raw(c) + "]");
        }
        s.tn = J::raw(v);
        v.clear();
        for (auto& n : mw.flooder.graph.nodes)
            if ((n.region_that_arrived || n.region_that_arrived_top) && idx(&n) < g.n) {
                long long lr = 0;
                if (n.region_that_arrived_top)
                    lr = n.local_radius().get_distance_at_time(mw.flooder.queue.cur_time);
                v.push_back("[" + std::to_string(idx(&n)) + "," + std::to_string(rid(n.region_that_arrived)) + "," +
                            std::to_string(rid(n.region_that_arrived_top)) + "," + std::to_string(idx(n.reached_from_source)) + "," +
                            J::num32(sc(lr)) + "," + std::to_string(lab(n.observables_crossed_from_source)) + "]");
            }
        s.nodes = J::raw(v);
        return s;
    }
    std::string event(const MwpmEvent& e) {
        switch (e.event_type) {
            case REGION_HIT_REGION: {
                auto& d = e.region_hit_region_event_data;
                return "[\"hit\"," + std::to_string(rid(d.region1)) + "," + std::to_string(rid(d.region2)) + "," + edge(d.edge) + "]";
            }
            case REGION_HIT_BOUNDARY: {
                auto& d = e.region_hit_boundary_event_data;
                return "[\"boundary\"," + std::to_string(rid(d.region)) + ",-1," + edge(d.edge) + "]";
            }
            case BLOSSOM_SHATTER: {
                auto& d = e.blossom_shatter_event_data;
                return "[\"shatter\"," + std::to_string(rid(d.blossom_region)) + ",-1,[" + std::to_string(rid(d.in_parent_region)) + "," +
                       std::to_string(rid(d.in_child_region)) + ",0]]";
            }
            default:
                return "[\"none\",-1,-1,[-1,-1,0]]";
        }
    }
    std::string step(const char* op, const std::string& ev) {
        Snap s = snap();
        return J().kv("kind", J::str("step")).kv("op", J::str(op)).n("t", s.t).kv("ev", ev).kv("regs", s.regs).kv("bl", s.bl)
            .kv("tn", s.tn).kv("nodes", s.nodes).done();
    }
};

// A rough look at a state, to pick out the runs that TLC must see.
struct Prescan {
    const GGraph& g;
    std::vector<std::vector<long long>> d;
    std::vector<long long> db;
    explicit Prescan(const GGraph& g) : g(g), d(g.n, std::vector<long long>(g.n, GINF)), db(g.n, GINF) {
        for (int i = 0; i < g.n; i++)
            d[i][i] = 0;
        auto eff = effective(g);
        for (auto& e : eff)
            if (e.v >= 0)
                d[e.u][e.v] = d[e.v][e.u] = std::min(d[e.u][e.v], 2LL * std::abs(e.w));
        for (int k = 0; k < g.n; k++)
            for (int i = 0; i < g.n; i++)
                for (int j = 0; j < g.n; j++)
                    d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
        for (auto& e : eff)
            if (e.v == -1)
                for (int i = 0; i < g.n; i++)
                    db[i] = std::min(db[i], d[i][e.u] + 2LL * std::abs(e.w));
    }
    // which labels the shortest paths from s have
    std::map<int, std::vector<uint64_t>> lab;
    const std::vector<uint64_t>& labels(int s) {
        auto it = lab.find(s);
        if (it != lab.end())
            return it->second;
        std::vector<uint64_t> L(g.n, 0);
        L[s] = 1;
        auto eff = effective(g);
        std::vector<std::array<int, 4>> arcs;
        for (auto& e : eff)
            if (e.v >= 0)
                for (int q = 0; q < 2; q++) {
                    int a = q ? e.v : e.u, b = q ? e.u : e.v;
                    if (d[s][a] < GINF && d[s][a] + 2LL * std::abs(e.w) == d[s][b]) {
                        int o = 0;
                        for (int c : e.cols)
                            o ^= 1 << c;
                        arcs.push_back({a, b, o, 0});
                    }
                }
        std::sort(arcs.begin(), arcs.end(), [&](const auto& x, const auto& y) { return d[s][x[0]] < d[s][y[0]]; });
        for (bool more = true; more;) {
            more = false;
            for (auto& x : arcs) {
                uint64_t was = L[x[1]];
                for (int o = 0; o < 1 << g.k; o++)
                    if (L[x[0]] >> o & 1)
                        L[x[1]] |= 1ull << (o ^ x[2]);
                more |= L[x[1]] != was;
            }
        }
        return lab[s] = L;
    }
    static std::set<int> leaves(Recorder& rec, GraphFillRegion* r) {
        std::set<int> out;
        for (int s : rec.src) {
            auto* q = rec.mw.flooder.graph.nodes[rec.g.at(s)].region_that_arrived;
            for (int k = 0; q && k < 1000; k++, q = q->blossom_parent)
                if (q == r)
                    out.insert(s);
        }
        return out;
    }
    // Is the total growth at the end the weight of some explanation that the decoders report?
    bool bad(Recorder& rec) {
        auto R = rec.regions();
        auto t = rec.mw.flooder.queue.cur_time;
        std::vector<std::set<int>> L;
        std::vector<long long> rad;
        for (auto* r : R) {
            L.push_back(leaves(rec, r));
            rad.push_back(rec.sc(r->radius.get_distance_at_time(t)));
            if (rad.back() < 0 || rad.back() == 2147483647LL)
                return true;
            if (!r->blossom_parent && r->blossom_parent_top != r)
                return true;
            if (!r->blossom_parent && !r->alt_tree_node) {
                if (!r->radius.is_frozen() || !r->match.edge.loc_from)
                    return true;
                if (r->match.region && (r->match.region->match.region != r || r->match.region->match.edge.loc_from != r->match.edge.loc_to))
                    return true;
                if (!L.back().count((int)rec.idx(r->match.edge.loc_from)))
                    return true;
            }
            if (!r->blossom_parent && r->alt_tree_node) {
                auto* n = r->alt_tree_node;
                if (!(n->outer_region == r && r->radius.is_growing()) && !(n->inner_region == r && r->radius.is_shrinking()))
                    return true;
            }
        }
        auto reach = [&](int s, int without) {
            long long y = 0;
            for (size_t i = 0; i < R.size(); i++)
                if (L[i].count(s) && !(without >= 0 && L[i].count(without)))
                    y += rad[i];
            return y;
        };
        for (int s : rec.src) {
            long long y = reach(s, -1);
            if (y > db[s])
                return true;
            for (int u : rec.src)
                if (u < s && reach(s, u) + reach(u, s) > d[s][u])
                    return true;
            auto* top = rec.mw.flooder.graph.nodes[g.at(s)].region_that_arrived_top;
            for (int v = 0; v < g.n; v++)
                if (d[s][v] < y && rec.mw.flooder.graph.nodes[g.at(v)].region_that_arrived_top != top)
                    return true;
        }
        for (auto& n : rec.mw.flooder.graph.nodes)
            if (n.region_that_arrived_top) {
                long long v = rec.idx(&n), s = rec.idx(n.reached_from_source);
                if (v >= g.n)
                    continue;
                if (s < 0 || s >= g.n)
                    return true;
                if (rec.sc(n.local_radius().get_distance_at_time(t)) != reach((int)s, -1) - d[s][v])
                    return true;
                if (g.k <= 6 && g.K <= 64) {
                    long long l = rec.lab(n.observables_crossed_from_source);
                    if (l >= 1 << g.k || !(labels((int)s)[v] >> l & 1))
                        return true;
                }
            }
        return false;
    }
};
// What the decoding functions answer for the same detection events.
std::string results(const GGraph& g, const std::vector<int>& ask, long long total, long long left, bool& sus) {
    std::vector<uint64_t> ev;
    for (int v : ask)
        ev.push_back(g.at(v));
    auto ug = build_user_graph(g);
    Mwpm& mw = ug.get_mwpm_with_search_graph();
    auto call = [&](auto f) {
        try {
            f();
            return 0;
        } catch (const std::invalid_argument&) {
            return 1;
        } catch (const std::exception&) {
            return 2;
        }
    };
    auto cols = [&](const std::vector<uint8_t>& obs) {
        long long o = 0;
        std::set<int> used;
        for (int c = 0; c < g.k; c++) {
            used.insert(g.colobs[c]);
            if (obs[g.colobs[c]] & 1)
                o |= 1LL << c;
        }
        for (size_t i = 0; i < obs.size(); i++)
            if (obs[i] > 1 || (obs[i] && !used.count((int)i)))
                o |= 1LL << 20;
        return o;
    };
    auto sc = [&](long long v) { return v % g.scale ? 2147483647LL : v / g.scale; };
    total_weight_int w = 0;
    std::vector<uint8_t> obs(g.K + 16, 0);
    int s1 = call([&] { decode_detection_events(mw, ev, obs.data(), w, false); });
    long long o1 = s1 ? 0 : cols(obs), w1 = s1 ? 0 : sc(w);
    int s2 = 9;
    long long o2 = 0, w2 = 0;
    if (g.K <= 64)
        s2 = call([&] {
            auto res = decode_detection_events_for_up_to_64_observables(mw, ev, false);
            std::vector<uint8_t> b(64);
            for (int i = 0; i < 64; i++)
                b[i] = res.obs_mask >> i & 1;
            o2 = cols(b);
            w2 = sc(res.weight);
        });
    std::vector<std::string> pairs, edges;
    int s3 = 9;
    size_t covered = 0;
    if (!g.has_neg())
        s3 = call([&] {
            decode_detection_events_to_match_edges(mw, ev);
            for (auto& m : mw.flooder.match_edges) {
                long long o = 0;
                if (g.K <= 64) {
                    std::vector<uint8_t> b(64);
                    for (int i = 0; i < 64; i++)
                        b[i] = m.obs_mask >> i & 1;
                    o = cols(b);
                }
                covered += 1 + (m.loc_to != nullptr);
                pairs.push_back("[" + std::to_string(g.name(m.loc_from - &mw.flooder.graph.nodes[0])) + "," +
                                std::to_string(m.loc_to ? g.name(m.loc_to - &mw.flooder.graph.nodes[0]) : -1) + "," + std::to_string(o) + "]");
            }
        });
    int s4 = call([&] {
        std::vector<int64_t> ed;
        decode_detection_events_to_edges(mw, ev, ed);
        for (auto& v : ed)
            v = g.name(v);
        for (size_t i = 0; i + 1 < ed.size(); i += 2)
            edges.push_back("[" + std::to_string(ed[i]) + "," + std::to_string(ed[i + 1]) + "]");
        std::set<std::pair<long long, long long>> seen;
        std::set<long long> odd(ask.begin(), ask.end());
        long long tot = 0;
        for (size_t i = 0; i + 1 < ed.size(); i += 2) {
            bool found = false;
            for (auto& e : effective(g))
                if (std::min(e.u, e.v) == std::min(ed[i], ed[i + 1]) && std::max(e.u, e.v) == std::max(ed[i], ed[i + 1])) {
                    tot += 2 * e.w;
                    found = true;
                }
            if (!found || !seen.insert({std::min(ed[i], ed[i + 1]), std::max(ed[i], ed[i + 1])}).second)
                sus = true;
            for (long long v : {ed[i], ed[i + 1]})
                if (v >= 0 && !odd.insert(v).second)
                    odd.erase(v);
        }
        if (!odd.empty() || (!s1 && tot != w1))
            sus = true;
    });
    if (s1 != (left > 0) || s4 != (left > 0) || (s3 != 9 && s3 != (left > 0)) || (s2 != 9 && (s2 != s1 || w2 != w1)))
        sus = true;
    if (s3 == 0 && covered != ask.size())
        sus = true;
    if (!g.has_neg() && !s1 && w1 != total)
        sus = true;
    if (!g.phi.empty() && !s1) {
        long long p = 0;
        for (int v : ask)
            p ^= g.phi[v];
        if (o1 != p || (s2 == 0 && o2 != p))
            sus = true;
    }
    auto a3 = [](long long a, long long b, long long c) { return "[" + J::num32(a) + "," + J::num32(b) + "," + J::num32(c) + "]"; };
    return J().kv("kind", J::str("step")).kv("op", J::str("result")).n("t", 0).kv("a", a3(s1, w1, o1)).kv("b", a3(s2, w2, o2)).n("sp", s3)
        .kv("pairs", J::raw(pairs)).n("se", s4).kv("edges", J::raw(edges)).done();
}
}  // namespace

int main(int argc, char** argv) {
    Args A(argc, argv);
    FILE* out = fopen(A.s("--out", "/dev/stdout").c_str(), "w");
    uint64_t seed = A.i("--seed", 1);
    long long emit_every = A.i("--emit-every", 50), want = A.i("--interesting", 40), per = A.i("--per", 20);
    GenOpt o;
    o.max_n = A.i("--n", 8);
    o.min_n = A.i("--min-n", 2);
    o.k = A.i("--k", 2);
    o.bnode = A.i("--bnode", 15);
    o.zero = A.i("--zero", 30);
    o.maxw = A.i("--maxw", 0);
    o.loops = 0;
    o.dupcols = 5;
    o.neg = A.i("--neg", 0);
    o.bigK = A.i("--bigk", 0);
    bool brief = A.i("--brief", 0), exact = A.i("--exact", 0);
    int long_n = (int)A.i("--long", 0);
    int ring_n = (int)A.i("--ring", 0);
    int host = (int)A.i("--host", 0);
    int dens = (int)A.i("--density", 0);
    struct Stat {
        long long runs, events, blossoms, shatters, suspicious, emitted, picked;
    };
    auto* st = shared_stat<Stat>();
    auto make = [&](Rng& r) {
        GGraph g = ring_n ? gen_ring(r, ring_n + r.range(0, 30), o.k) : long_n ? gen_long(r, r.range(long_n * 3 / 4, long_n), 1) : gen_graph(r, o);
        if (exact) {
            // labels that are differences of a potential: all explanations have the same observables
            g.phi.assign(g.n, 0);
            for (int v = 0; v < g.n; v++)
                g.phi[v] = g.bnodes.count(v) ? 0 : (int)r.below(1u << g.k);
            for (auto& e : g.edges) {
                int p = g.phi[e.u] ^ (e.v == -1 ? 0 : g.phi[e.v]);
                e.cols.clear();
                for (int c = 0; c < g.k; c++)
                    if (p >> c & 1)
                        e.cols.push_back(c);
            }
        }
        put_in_host(r, g, host);
        return g;
    };
    auto begin = [&](long long gi, const GGraph& g, const std::vector<int>& S, const std::vector<int>& ask, bool sus) {
        return J().kv("kind", J::str("begin")).n("id", gi).n("sus", sus).kv("g", g.json()).kv("s", J::arr(S)).kv("ask", J::arr(ask))
            .kv("phi", J::arr(g.phi)).done();
    };
    // the detectors that the library has to pair up: asked for, or touching an odd number of negative edges
    auto sources = [&](const GGraph& g, const std::vector<int>& ask) {
        std::set<int> x(ask.begin(), ask.end());
        for (auto& e : effective(g))
            if (e.w < 0)
                for (int v : {e.u, e.v})
                    if (v >= 0 && !x.insert(v).second)
                        x.erase(v);
        return std::vector<int>(x.begin(), x.end());
    };
    auto pick = [&](Rng& r, const GGraph& g) {
        std::vector<int> S;
        int p = dens ? dens : r.range(20, 100);
        for (int i = 0; i < g.n; i++)
            if (!g.bnodes.count(i) && r.chance(p, 100))
                S.push_back(i);
        r.shuffle(S);
        return S;
    };
    // one unit: one set of detection events; `per` of them in a row share a graph
    auto unit = [&](long long ui) {
        {
            Rng r(seed * 1000003ull + ui / per);
            GGraph g = make(r);
            Rng r2(seed * 7000003ull + ui);
            auto ask = pick(r2, g);
            auto S = ask;
            if (g.has_neg()) {
                S = sources(g, ask);
                r2.shuffle(S);
            }
            Prescan pre(g);
            auto ug = build_user_graph(g);
            Mwpm& mw = ug.get_mwpm();
            Recorder rec{mw, g, S, {}, 1000};
            std::vector<std::string> recs;
            mw.flooder.queue.cur_time = 0;
            for (int s : S) {
                mw.create_detection_event(&mw.flooder.graph.nodes[g.at(s)]);
                rec.id[mw.flooder.graph.nodes[g.at(s)].region_that_arrived] = s;
            }
            bool sus = false;
            int interest = 0, nb = 0;
            if (!brief)
                recs.push_back(rec.step("start", "[\"none\",-1,-1,[-1,-1,0]]"));
            sus |= pre.bad(rec);
            long long ne = 0;
            while (true) {
                MwpmEvent e = mw.flooder.run_until_next_mwpm_notification();
                if (e.event_type == NO_EVENT) {
                    recs.push_back(rec.step("end", rec.event(e)));
                    sus |= pre.bad(rec);
                    if (brief) {
                        long long total = 0, left = 0;
                        for (auto* q : rec.regions()) {
                            total += rec.sc(q->radius.get_distance_at_time(mw.flooder.queue.cur_time));
                            left += !q->blossom_parent && q->alt_tree_node;
                        }
                        recs.push_back(results(g, ask, total, left, sus));
                    }
                    break;
                }
                std::string ej = rec.event(e);
                if (!brief)
                    recs.push_back(rec.step("flood", ej));
                sus |= !brief && pre.bad(rec);
                if (e.event_type == BLOSSOM_SHATTER) {
                    interest += 3;
                    st->shatters++;
                }
                mw.process_event(e);
                if (e.event_type == BLOSSOM_SHATTER)
                    rec.id.erase(e.blossom_shatter_event_data.blossom_region);
                int before = rec.next_blossom;
                rec.regions();
                if (!brief)
                    recs.push_back(rec.step("event", ej));
                sus |= !brief && pre.bad(rec);
                if (rec.next_blossom != before) {
                    nb++;
                    interest += nb;
                    st->blossoms++;
                }
                st->events++;
                if (sus || ++ne > 2000)
                    break;
            }
            st->runs++;
            bool only = A.i("--only", -1) >= 0;
            bool regular = ui % emit_every == 0;
            bool chosen = interest >= 4 && st->picked < want && ui % (emit_every / 10 + 1) == 0;
            if (sus || regular || chosen || only) {
                st->emitted++;
                st->suspicious += sus;
                if (chosen)
                    st->picked++;
                fprintf(out, "%s\n", begin(ui, g, S, ask, sus).c_str());
                for (auto& x : recs)
                    fprintf(out, "%s\n", x.c_str());
            }
        }
    };
    auto crash = [&](long long ui, const std::string& why) {
        Rng r(seed * 1000003ull + ui / per);
        GGraph g = make(r);
        Rng r2(seed * 7000003ull + ui);
        auto S = pick(r2, g);
        st->suspicious++;
        fprintf(out, "%s\n", begin(ui, g, sources(g, S), S, true).c_str());
        fprintf(out, "%s\n", J().kv("kind", J::str("step")).kv("op", J::str("crash")).kv("why", J::str(why)).done().c_str());
    };
    run_units(A, "--runs", 100, out, unit, crash);
    fclose(out);
    fprintf(stderr,
        "STAT {\"runs\":%lld,\"events\":%lld,\"blossoms\":%lld,\"shatters\":%lld,\"suspicious\":%lld,\"emitted\":%lld}\n",
        st->runs, st->events, st->blossoms, st->shatters, st->suspicious, st->emitted);
    return 0;
}
