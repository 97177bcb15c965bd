// Real-valued weights m * 2^s turned into a decoder: the integers both stored graphs hold, the stated
// normalisation, and the weights that decodes report. Judged by DiscretiseTrace.tla.
#include <cmath>

#include "ugbuild.h"
using namespace pm;

int main(int argc, char** argv) {
    Args A(argc, argv);
    FILE* out = fopen(A.s("--out", "/dev/stdout").c_str(), "w");
    uint64_t seed = A.i("--seed", 1);
    long long emit_every = A.i("--emit-every", 10);
    int maxn = (int)A.i("--n", 6), longn = (int)A.i("--long", 0);
    struct Stat {
        long long graphs, decodes, suspicious, emitted;
    };
    auto* st = shared_stat<Stat>();
    const long long MAXW = (1 << 24) - 1;
    auto unit = [&](long long k) {
        Rng r(seed * 1000003ull + k);
        GGraph g;
        int s;
        long long nd = r.chance(3, 4) ? (1 << 24) : r.chance(1, 2) ? 1000 : r.range(2, 5000);
        bool neg = r.chance(1, 2);
        if (longn) {
            // a long chain or ring of few distinct weights: distances far beyond 2^31
            g.n = r.range(longn / 2, longn);
            nd = 1 << 24;
            long long a = r.range(1, 50) * 2 + 1, b = r.chance(1, 2) ? a : r.range(1, (int)a);
            for (int i = 0; i + 1 < g.n; i++)
                g.edges.push_back({i, i + 1, (int)(i == 0 || r.chance(1, 2) ? a : b), {}});
            if (r.chance(1, 2))
                g.edges.push_back({g.n - 1, 0, (int)a, {}});
            if (r.chance(1, 3))
                g.edges.push_back({r.range(0, g.n - 1), -1, (int)a, {}});
            s = -r.range(1, 40);
            neg = false;
        } else {
            GenOpt o;
            o.max_n = maxn;
            o.k = 0;
            o.bnode = 0;
            o.maxedges = 10;
            g = gen_graph(r, o);
            int mm = r.range(0, 7);
            s = mm == 0 ? 0 : mm == 1 ? r.range(0, 3) : mm == 2 ? -1 : mm == 3 ? -2 : mm == 4 ? -10 : -r.range(1, 70);
            int bits = s >= -2 ? 26 : 24;
            int pat = r.range(0, 6);
            long long common = r.range(1, 1 << r.range(1, 23));
            for (auto& e : g.edges) {
                long long m;
                switch (pat) {
                    case 0: m = r.range(0, 7); break;
                    case 1: m = r.range(0, 1000); break;
                    case 2: m = (long long)(r.next() & ((1LL << r.range(1, bits)) - 1)); break;
                    case 3: m = r.chance(1, 2) ? common : (long long)(r.next() & ((1LL << r.range(1, bits)) - 1)); break;
                    case 4: m = s >= 0 ? (MAXW >> s) - r.range(-1, 3) : std::min<long long>((MAXW << std::min(-s, 2)) + r.range(-2, 2), (1LL << 26) - 1); break;
                    case 5: m = r.chance(1, 3) ? 0 : (1LL << r.range(0, bits - 1)) + r.range(-1, 1); break;
                    default: m = common * r.range(0, 3); break;
                }
                if (m < 0)
                    m = 0;
                if (s > 0)
                    m = std::min<long long>(m, (MAXW >> s) + r.range(0, 2));
                if (neg && r.chance(1, 3))
                    m = -m;
                e.w = (int)m;
            }
            if (s < 0 && r.chance(1, 6))
                for (auto& e : g.edges)
                    e.w = (e.w >> std::min(-s, 20)) * (1 << std::min(-s, 20));  // perhaps integral in spite of s
        }
        // rules, on graphs without negative weights
        struct Rule {
            int e, t;
            long long m;
        };
        std::vector<Rule> rules;
        neg = g.has_neg();
        if (!neg && g.edges.size() >= 2 && r.chance(1, 3)) {
            int c = r.range(1, 3);
            for (int i = 0; i < c; i++) {
                Rule x{r.range(0, (int)g.edges.size() - 1), r.range(0, (int)g.edges.size() - 1), 0};
                auto& t = g.edges[x.t];
                if (x.e == x.t || g.edges[x.e].u == g.edges[x.e].v || t.u == t.v)
                    continue;
                x.m = r.chance(1, 4) ? r.range(0, 1 << 24) : (long long)r.below(t.w + 1);
                if (s > 0)
                    x.m = std::min<long long>(x.m, MAXW >> s);
                rules.push_back(x);
            }
        }
        g.k = g.K = 0;
        note("build");
        UserGraph ug((size_t)g.n);
        for (auto& e : g.edges) {
            double w = std::ldexp((double)e.w, s);
            if (e.v == -1)
                ug.add_or_merge_boundary_edge(e.u, {}, w, -1);
            else
                ug.add_or_merge_edge(e.u, e.v, {}, w, -1);
        }
        {
            std::vector<UserEdge*> ue;
            for (auto& e : ug.edges)
                ue.push_back(&e);
            for (auto& x : rules) {
                auto& t = g.edges[x.t];
                ue[x.e]->implied_weights_for_other_edges.push_back({(size_t)t.u, t.v == -1 ? SIZE_MAX : (size_t)t.v, std::ldexp((double)x.m, s)});
            }
        }
        long long M = 0;
        bool integral = true;
        auto see = [&](long long m) {
            M = std::max(M, std::llabs(m));
            if (s < 0 && std::ldexp((double)m, s) != std::floor(std::ldexp((double)m, s)))
                integral = false;
        };
        for (auto& e : g.edges)
            see(e.w);
        for (auto& x : rules)
            see(x.m);
        J j;
        std::vector<std::string> es, rs;
        for (auto& e : g.edges)
            es.push_back("[" + std::to_string(e.u) + "," + std::to_string(e.v) + "," + std::to_string(e.w) + "]");
        for (auto& x : rules)
            rs.push_back("[" + std::to_string(x.e + 1) + "," + std::to_string(x.t + 1) + "," + std::to_string(x.m) + "]");
        j.kv("kind", J::str("disc")).n("id", k).n("n", g.n).n("s", s).n("nd", nd).n("small", !longn).kv("edges", J::raw(es)).kv("rules", J::raw(rs));
        int status = 0;
        bool sus = false;
        Mwpm m;
        std::vector<std::string> calls;
        try {
            m = ug.to_mwpm((weight_int)nd, true);
        } catch (const std::invalid_argument&) {
            status = 1;
        }
        bool expect_refusal = std::ldexp((double)M, s) > (double)MAXW;
        if (status != (int)expect_refusal)
            sus = true;
        auto rules_json = [&](auto& graph) {
            std::vector<std::string> v;
            for (size_t u = 0; u < graph.nodes.size(); u++)
                for (size_t q = 0; q < graph.nodes[u].neighbors.size(); q++)
                    for (auto& iw : graph.nodes[u].neighbor_implied_weights[q]) {
                        // which edge do the pointers name?
                        auto name = [&](weight_int* p, long long& a, long long& b) {
                            a = b = -2;
                            if (!p)
                                return;
                            for (size_t x = 0; x < graph.nodes.size(); x++)
                                for (size_t y = 0; y < graph.nodes[x].neighbors.size(); y++)
                                    if (&graph.nodes[x].neighbor_weights[y] == p) {
                                        a = x;
                                        b = graph.nodes[x].neighbors[y] ? graph.nodes[x].neighbors[y] - &graph.nodes[0] : -1;
                                    }
                        };
                        long long a, b, c, d;
                        name(iw.edge0_ptr, a, b);
                        name(iw.edge1_ptr, c, d);
                        auto* t = graph.nodes[u].neighbors[q];
                        v.push_back("[" + J::num32(u) + "," + J::num32(t ? t - &graph.nodes[0] : -1) + "," + J::num32(a) + "," + J::num32(b) + "," + J::num32(c) + "," + J::num32(d) + "," +
                                    J::num32(iw.implied_weight) + "]");
                    }
            return J::raw(v);
        };
        if (status == 0) {
            double norm = m.flooder.graph.normalising_constant;
            auto wm = weights_of(m.flooder.graph), ws = weights_of(m.search_flooder.graph);
            double scaled = norm / 2 * std::ldexp((double)M, s);  // the largest half weight, before rounding
            j.n("norm2", norm == 2.0).w("scaled", integral || !(std::abs(scaled) < 1e12) ? 0 : (long long)std::llround(scaled * 1024));
            j.kv("mg", weights_json(wm)).kv("sg", weights_json(ws)).w("neg", m.flooder.graph.negative_weight_sum);
            j.kv("mr", rules_json(m.flooder.graph)).kv("sr", rules_json(m.search_flooder.graph));
            if (wm != ws)
                sus = true;
            auto half = [&](long long q) -> long long {
                return integral ? (long long)std::ldexp((double)q, s) : std::llround((double)((__int128)q * (nd - 1)) / M);
            };
            std::map<std::pair<long long, long long>, long long> H;
            for (auto& e : g.edges) {
                H[{e.u, e.v}] = half(e.w);
                if (e.v != -1)
                    H[{e.v, e.u}] = half(e.w);
            }
            for (auto& x : wm)
                if (!H.count({x[0], x[1]}) || 2 * std::llabs(H[{x[0], x[1]}]) != x[2])
                    sus = true;
            if (integral ? norm != 2.0 : std::abs(norm / (2 * (nd - 1) / std::ldexp((double)M, s)) - 1) > 1e-9)
                sus = true;
            int nc = longn ? 4 : 8;
            for (int c = 0; c < nc; c++) {
                std::vector<uint64_t> ev;
                std::vector<long long> evl;
                for (int i = 0; i < g.n; i++)
                    if (longn ? (c == 0 && (i == 0 || i == g.n - 1)) || (c && r.chance(1, 20)) : r.chance(1, 2))
                        ev.push_back(i);
                if (longn && ev.size() % 2)
                    ev.pop_back();
                r.shuffle(ev);
                evl.assign(ev.begin(), ev.end());
                int s1 = 0, s2 = 0;
                long long W = 0;
                std::vector<std::string> list;
                long long tot = 0;
                note("decode");
                try {
                    W = decode_detection_events_for_up_to_64_observables(m, ev, false).weight;
                } catch (const std::invalid_argument&) {
                    s1 = 1;
                }
                try {
                    std::vector<int64_t> ed;
                    decode_detection_events_to_edges(m, ev, ed);
                    for (size_t i = 0; i + 1 < ed.size(); i += 2) {
                        list.push_back("[" + J::num32(ed[i]) + "," + J::num32(ed[i + 1]) + "]");
                        tot += 2 * H[{ed[i], ed[i + 1]}];
                    }
                } catch (const std::invalid_argument&) {
                    s2 = 1;
                }
                st->decodes++;
                if (s1 != s2 || (!s1 && W != tot))
                    sus = true;
                if (s1 == 0 && !longn) {
                    double best = 0;  // in user units, against the reported weight
                    GGraph h = g;
                    for (auto& e : h.edges)
                        e.w = (int)H[{e.u, e.v}];
                    auto eff = effective(h);
                    auto tab = min_table(h.n, eff);
                    uint32_t sm = 0;
                    for (auto e : ev)
                        sm ^= 1u << e;
                    if (W != 2 * tab[sm])
                        sus = true;
                }
                calls.push_back(J().kv("ev", J::arr(evl)).n("s1", s1).n("s2", s2).w("W", W).kv("l", J::raw(list)).done());
            }
        }
        j.n("st", status).kv("calls", J::raw(calls));
        st->graphs++;
        st->suspicious += sus;
        if (sus || k % emit_every == 0 || A.i("--only", -1) >= 0) {
            st->emitted++;
            fprintf(out, "%s\n", j.done().c_str());
        }
    };
    auto crash = [&](long long k, const std::string& why) {
        st->suspicious++;
        fprintf(out, "%s\n", J().kv("kind", J::str("crash")).n("id", k).kv("why", J::str(why)).kv("at", J::str(progress()->note)).done().c_str());
    };
    run_units(A, "--graphs", 100, out, unit, crash);
    fclose(out);
    fprintf(stderr, "STAT {\"graphs\":%lld,\"decodes\":%lld,\"suspicious\":%lld,\"emitted\":%lld}\n", st->graphs, st->decodes, st->suspicious, st->emitted);
    return 0;
}
