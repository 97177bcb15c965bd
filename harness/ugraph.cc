// Histories of edits of a user graph (adding and merging edges under every strategy, changing the
// boundary set and the number of observables), interleaved with queries and decodes.
// Judged by UserGraphTrace.tla.
#include <cmath>
#include <map>

#include "ugbuild.h"
using namespace pm;

// The mirror used to pick histories worth showing to TLC (never for the verdict).
struct ME {
    int u, v;
    double w, p;
    std::vector<size_t> obs;
    bool merged = false;
};

static std::string wj(double w) { return J::wide((long long)std::llround(w * 65536)); }
static long long qof(double w) { return std::llround(1048576.0 / (1 + std::exp(w))); }
static long long pof(double p) { return p >= 0 && p <= 1 ? std::llround(p * 1048576.0) : -1; }

int main(int argc, char** argv) {
    Args A(argc, argv);
    FILE* out = fopen(A.s("--out", "/dev/stdout").c_str(), "w");
    uint64_t seed = A.i("--seed", 1);
    long long emit_every = A.i("--emit-every", 10);
    int len = (int)A.i("--len", 20), maxn = (int)A.i("--n", 5);
    std::string fam = A.s("--family", "int");  // int, prob, decode
    int host = (int)A.i("--host", 0);
    bool bursts = A.i("--bursts", 0);  // some edits come after hundreds of others that they make good
    bool dec = fam == "decode", prob = fam == "prob";
    struct Stat {
        long long histories, ops, decodes, suspicious, emitted;
    };
    auto* st = shared_stat<Stat>();
    auto unit = [&](long long k) {
        Rng r(seed * 1000003ull + k);
        std::vector<std::string> lines;
        bool sus = false;
        int n0 = r.range(0, 3), k0 = r.range(0, 2);
        int ctor = r.range(0, 2);
        if (ctor == 0)
            n0 = k0 = 0;
        if (ctor == 1)
            k0 = 0;
        // names of the nodes: small indices, or (hosted) far apart, behind hubs with hundreds of leaves
        std::vector<int> at;
        for (int i = 0; i < maxn; i++)
            at.push_back(i);
        int hub = -1, pads = 0, first = 0;
        if (host) {
            static const int pool[] = {0, 1, 2, 254, 255, 256, 257, 511, 512, 700, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072};
            int top = host == 1 ? 10 : 18;
            std::set<int> pick;
            while ((int)pick.size() < maxn)
                pick.insert(pool[r.range(0, top - 1)]);
            at.assign(pick.begin(), pick.end());
            r.shuffle(at);
            if (r.chance(2, 3)) {
                hub = at[r.range(0, 1)];
                pads = r.range(200, 320);
                first = host == 1 ? 1000 : 140000;
            }
        }
        UserGraph ug = ctor == 0 ? UserGraph() : ctor == 1 ? UserGraph((size_t)n0) : UserGraph((size_t)n0, (size_t)k0);
        // mirror
        std::vector<ME> es;
        std::set<int> b;
        size_t nn = n0, K = k0;
        int negp = r.chance(1, 2) ? 0 : r.range(5, 60);
        int wmax = r.chance(1, 2) ? 4 : 40;
        lines.push_back(J().kv("kind", J::str("begin")).n("id", k).kv("family", J::str(fam)).n("n", n0).n("K", k0).kv("at", host ? J::arr(at) : std::string("[]")).n("hub", hub).n("first", first).n("pads", pads).done());
        for (int i = 0; i < pads; i++)
            ug.add_or_merge_edge(i % 2 ? hub : first + i, i % 2 ? first + i : hub, {}, 1, 0.5, DISALLOW);
        if (pads)
            nn = std::max(hub, first + pads - 1) + 1;
        auto is_pad = [&](const UserEdge& e) {
            size_t a = e.node1, c = e.node2;
            if (a == (size_t)hub)
                std::swap(a, c);
            return pads && c == (size_t)hub && a >= (size_t)first && a < (size_t)(first + pads);
        };
        auto find = [&](int u, int v) -> ME* {
            for (auto& e : es)
                if ((e.u == u && e.v == v) || (v != -1 && e.u == v && e.v == u))
                    return &e;
            return nullptr;
        };
        int hot = r.chance(1, 2) ? r.range(2, std::max(2, maxn - 1)) : maxn;  // collide more often on few nodes
        auto burst = [&]() -> int {
            static const int pool[] = {2, 127, 128, 129, 254, 255, 256, 257, 511, 512, 32768, 65535, 65536, 65537};
            return !bursts || r.chance(1, 2) ? 1 : r.chance(1, 25) ? pool[r.range(10, 13)] : pool[r.range(0, 9)];
        };
        for (int s = 0; s < len; s++) {
            J j;
            j.kv("kind", J::str("step"));
            int what = r.range(0, 99);
            int decp = dec ? 35 : 0;
            if (what < decp && nn > 0) {
                std::vector<uint64_t> ev;
                std::vector<long long> evl;
                for (int i : at)
                    if ((size_t)i < nn && r.chance(1, 2))
                        ev.push_back(i);
                r.shuffle(ev);
                evl.assign(ev.begin(), ev.end());
                int kind = r.range(0, 2);
                bool viasearch = r.chance(1, 2);
                if (kind == 1 && ug.get_num_observables() > 64)
                    kind = 0;
                note("decode");
                int status = 0;
                long long w = 0, o = 0, x = 0, norm = 0;
                std::vector<std::string> list;
                std::vector<std::pair<long long, long long>> raw;
                try {
                    auto& m = (kind == 2 || viasearch) ? ug.get_mwpm_with_search_graph() : ug.get_mwpm();
                    norm = (long long)m.flooder.graph.normalising_constant;
                    if ((double)norm != m.flooder.graph.normalising_constant)
                        norm = 0;
                    std::vector<uint8_t> obs(std::max<size_t>(ug.get_num_observables(), m.flooder.graph.num_observables) + 80, 0);
                    if (kind == 0) {
                        total_weight_int tw = 0;
                        decode_detection_events(m, ev, obs.data(), tw, false);
                        w = tw;
                    } else if (kind == 1) {
                        auto res = decode_detection_events_for_up_to_64_observables(m, ev, false);
                        w = res.weight;
                        for (int i = 0; i < 64; i++)
                            obs[i] = res.obs_mask >> i & 1;
                    } else {
                        std::vector<int64_t> ed;
                        decode_detection_events_to_edges(m, ev, ed);
                        for (size_t i = 0; i + 1 < ed.size(); i += 2) {
                            list.push_back("[" + J::num32(ed[i]) + "," + J::num32(ed[i + 1]) + "]");
                            raw.push_back({ed[i], ed[i + 1]});
                        }
                    }
                    for (size_t i = 0; i < obs.size(); i++) {
                        if (obs[i] > 1)
                            x++;
                        else if (obs[i] && i < 3)
                            o |= 1 << i;
                        else if (obs[i])
                            x++;
                    }
                } catch (const std::invalid_argument&) {
                    status = 1;
                    w = o = x = 0;
                    list.clear();
                } catch (const std::exception&) {
                    status = 2;
                }
                st->decodes++;
                j.kv("op", J::str("decode")).n("how", kind).kv("ev", J::arr(evl)).n("st", status).n("w", w).n("o", o).n("x", x).n("norm", norm)
                    .kv("l", J::raw(list));
                lines.push_back(j.done());
                // selection
                GGraph g;
                g.n = host ? maxn : (int)nn;
                g.k = 3;
                std::map<int, int> pos{{-1, -1}};
                for (int i = 0; i < (int)at.size(); i++)
                    pos[at[i]] = i;
                for (int x : b)
                    g.bnodes.insert(pos[x]);
                for (auto& e : es) {
                    GEdge ge{pos[e.u], pos[e.v], (int)e.w, {}};
                    for (auto q : e.obs)
                        ge.cols.push_back((int)q);
                    g.edges.push_back(ge);
                }
                auto eff = effective(g);
                auto tab = min_table(g.n + 3, eff);
                uint32_t sm = 0;
                for (auto e : ev)
                    if (!b.count((int)e))
                        sm ^= 1u << pos[(int)e];
                long long best = GINF;
                for (uint32_t q = 0; q < 8; q++)
                    best = std::min(best, tab[sm | (q << g.n)]);
                if ((status == 0) != (best < GINF))
                    sus = true;
                else if (status == 0 && kind < 2 && (w != 2 * best || norm != 2 || x || tab[sm | ((uint32_t)o << g.n)] != best))
                    sus = true;
                else if (status == 0 && kind == 2) {
                    long long tot = 0;
                    uint32_t par = 0;
                    for (auto& p : raw)
                        for (auto& e : eff)
                            if (pos.count((int)p.first) && pos.count((int)p.second) &&
                                ((e.u == pos[(int)p.first] && e.v == pos[(int)p.second]) || (e.v == pos[(int)p.first] && e.u == pos[(int)p.second]))) {
                                tot += e.w;
                                par ^= e.mask & ((1u << g.n) - 1);
                            }
                    if (tot != best || par != sm)
                        sus = true;
                }
                continue;
            }
            if (what < 80) {
                int u = r.range(0, hot - 1), v = r.range(0, hot - 1);
                bool bd = r.chance(1, 4);
                if (r.chance(1, 10))
                    u = r.range(0, maxn - 1);
                if (u == v && !r.chance(1, 6))
                    v = (u + 1) % std::max(2, hot);
                u = at[u];
                v = bd ? -1 : at[v];
                std::vector<size_t> obs;
                int oc = r.range(0, 2);
                for (int i = 0; i < oc; i++)
                    obs.push_back(dec ? r.range(0, 2) : r.range(0, 4));
                ME* ex = find(u, v);
                int strat = r.range(0, 4);
                int a16 = r.range(1, 15);
                double w;
                if (prob)
                    w = std::log((16.0 - a16) / a16);
                else {
                    w = r.chance(1, 6) ? 0 : r.range(1, wmax);
                    if (u != v && r.chance(negp, 100))
                        w = -w;
                }
                int pk = r.range(0, 9);
                int ap = pk == 0 ? -1 : pk == 1 ? 32 : r.range(0, 16);
                double p = ap == -1 ? -1 : ap / 16.0;
                if (strat == INDEPENDENT && ex && !prob) {
                    if (dec) {
                        if (ex->w != 0)
                            w = 0;
                    } else if (ex->merged)
                        strat = REPLACE;
                }
                if (strat == SMALLEST_WEIGHT && ex && ((!prob && ex->merged) || (prob && ex->merged && std::abs(ex->w - w) < 1e-3)))
                    strat = KEEP_ORIGINAL;
                if (dec && u == v && strat == INDEPENDENT)
                    strat = REPLACE;
                int m = 1;
                if (ex && bursts && r.chance(1, 2))
                    strat = REPLACE;
                if (ex && strat == REPLACE)
                    m = burst();
                note("add");
                int status = 0;
                try {
                    for (int t = 1; t < m; t++) {
                        double wt = prob ? std::log((16.0 - (1 + t % 15)) / (1 + t % 15)) : 1 + t % wmax;
                        if (bd)
                            ug.add_or_merge_boundary_edge(u, obs, wt, 0.25, REPLACE);
                        else
                            ug.add_or_merge_edge(u, v, obs, wt, 0.25, REPLACE);
                    }
                    if (bd)
                        ug.add_or_merge_boundary_edge(u, obs, w, p, (MERGE_STRATEGY)strat);
                    else
                        ug.add_or_merge_edge(u, v, obs, w, p, (MERGE_STRATEGY)strat);
                } catch (const std::invalid_argument&) {
                    status = 1;
                } catch (const std::exception&) {
                    status = 2;
                }
                j.kv("op", J::str("add")).n("u", u).n("v", v).kv("w", wj(w)).n("wi", prob ? 0 : (long long)w).n("a16", a16).n("p16", ap).kv("obs", J::arr(obs))
                    .n("strat", strat).n("m", m).n("st", status);
                // mirror
                nn = std::max<size_t>(nn, std::max(u, v) + 1);
                if (status != (ex && strat == DISALLOW))
                    sus = true;
                if (!ex) {
                    es.push_back({u, v, w, p, obs, false});
                    for (auto q : obs)
                        K = std::max(K, q + 1);
                } else if (strat == REPLACE || (strat == SMALLEST_WEIGHT && w < ex->w)) {
                    ex->w = w;
                    ex->p = p;
                    ex->obs = obs;
                    ex->merged = false;
                    for (auto q : obs)
                        K = std::max(K, q + 1);
                } else if (strat == INDEPENDENT) {
                    double a = ex->w, c = w;
                    double pa = 1 / (1 + std::exp(a)), pb = 1 / (1 + std::exp(c));
                    double pp = pa * (1 - pb) + pb * (1 - pa);
                    ex->w = (a == 0 || c == 0) ? 0 : std::abs(a) + std::abs(c) < 30 ? std::log((1 - pp) / pp)
                                                                                    : (a < 0) == (c < 0) ? std::min(std::abs(a), std::abs(c)) + std::log1p(std::exp(-std::abs(a + c))) - std::log1p(std::exp(-std::abs(a - c)))
                                                                                                         : -std::min(std::abs(a), std::abs(c)) + std::log1p(std::exp(-std::abs(a + c))) - std::log1p(std::exp(-std::abs(a - c)));
                    ex->p = ex->p >= 0 && ex->p <= 1 && p >= 0 && p <= 1 ? p * (1 - ex->p) + ex->p * (1 - p) : -1;
                    ex->merged = !(a == 0 || c == 0);
                }
            } else if (what < 93) {
                std::set<size_t> nb;
                int c = r.range(0, 2);
                for (int i = 0; i < c; i++)
                    nb.insert(at[r.range(0, maxn - 1)]);
                note("boundary");
                int m = burst();
                for (int t = 1; t < m; t++) {
                    std::set<size_t> other;
                    for (auto x : nb)
                        if ((t ^ x) & 1)
                            other.insert(x);
                    ug.set_boundary(other);
                }
                ug.set_boundary(nb);
                b = std::set<int>(nb.begin(), nb.end());
                for (auto x : nb)
                    nn = std::max<size_t>(nn, x + 1);
                j.kv("op", J::str("boundary")).n("m", m).kv("b", J::arr(nb));
            } else {
                int v = r.chance(1, 3) && dec ? 70 : r.range(0, 6);
                note("minobs");
                ug.set_min_num_observables(v);
                K = std::max<size_t>(K, v);
                j.kv("op", J::str("minobs")).n("v", v);
            }
            st->ops++;
            // what the graph says about itself
            std::vector<std::string> dump;
            int padok = 0;
            for (auto& e : ug.edges) {
                if (is_pad(e)) {
                    padok += e.weight == 1 && e.error_probability == 0.5 && e.observable_indices.empty();
                    continue;
                }
                long long v = e.node2 == SIZE_MAX ? -1 : (long long)e.node2;
                dump.push_back("[" + J::num32(e.node1) + "," + J::num32(v) + "," + wj(e.weight) + "," + J::num32(qof(e.weight)) + "," +
                               J::num32(pof(e.error_probability)) + "," + J::arr(e.observable_indices) + "]");
                ME* m = find((int)e.node1, (int)v);
                if (!m || std::abs(m->w - e.weight) > 1e-6 || pof(m->p) != pof(e.error_probability) || m->obs != e.observable_indices)
                    sus = true;
            }
            if (ug.edges.size() != es.size() + pads || padok != pads)
                sus = true;
            std::vector<std::string> qs;
            std::vector<int> ask(at);
            ask.push_back(host ? first + 7 : maxn);
            for (int u : ask)
                for (int vi = -1; vi < (int)ask.size(); vi++) {
                    int v = vi == -1 ? -1 : ask[vi];
                    if (pads && ((u == hub && v == first + 7) || (v == hub && u == first + 7))) {
                        double w;
                        if (!ug.has_edge(u, v) || !ug.get_edge_or_boundary_edge_weight(u, v, w) || w != 1)
                            padok = -1, sus = true;
                        continue;
                    }
                    double w = 0;
                    size_t vv = v == -1 ? SIZE_MAX : (size_t)v;
                    bool has = v == -1 ? ug.has_boundary_edge(u) : ug.has_edge(u, vv);
                    bool got = ug.get_edge_or_boundary_edge_weight(u, vv, w);
                    ME* m = find(u, v);
                    if (has != (m != nullptr) || got != has || (m && std::abs(m->w - w) > 1e-6))
                        sus = true;
                    if (has || got)
                        qs.push_back("[" + std::to_string(u) + "," + std::to_string(v) + "," + std::to_string(has) + "," + std::to_string(got) + "," + wj(w) + "]");
                }
            std::vector<int> isb;
            for (size_t i = 0; i < ug.get_num_nodes(); i++)
                if (ug.is_boundary_node(i))
                    isb.push_back((int)i);
            bool allp = true;
            for (auto& e : es)
                allp &= e.p >= 0 && e.p <= 1;
            if (ug.get_num_nodes() != nn || ug.get_num_observables() != K || ug.get_num_edges() != es.size() + pads ||
                ug.get_num_detectors() != nn - b.size() || ug.all_edges_have_error_probabilities() != allp ||
                std::vector<int>(b.begin(), b.end()) != isb)
                sus = true;
            double mx = ug.max_abs_weight(), mm = pads ? 1 : 0;
            for (auto& e : es)
                mm = std::max(mm, std::abs(e.w));
            if (std::abs(mx - mm) > 1e-6)
                sus = true;
            j.n("n", ug.get_num_nodes()).n("K", ug.get_num_observables()).n("ne", ug.get_num_edges()).n("nd", ug.get_num_detectors())
                .n("allp", ug.all_edges_have_error_probabilities()).kv("isb", J::arr(isb)).kv("getb", J::arr(ug.get_boundary()))
                .kv("mx", wj(mx)).kv("e", J::raw(dump)).kv("has", J::raw(qs)).n("padok", padok).n("virt", ug.is_boundary_node(SIZE_MAX));
            lines.push_back(j.done());
        }
        st->histories++;
        if (sus)
            st->suspicious++;
        if (sus || k % emit_every == 0 || A.i("--only", -1) >= 0) {
            st->emitted++;
            for (auto& l : lines)
                fprintf(out, "%s\n", l.c_str());
        }
    };
    auto crash = [&](long long k, const std::string& why) {
        st->suspicious++;
        fprintf(out, "%s\n", J().kv("kind", J::str("crash")).n("id", k).kv("why", J::str(why)).kv("at", J::str(progress()->note)).done().c_str());
    };
    run_units(A, "--histories", 100, out, unit, crash);
    fclose(out);
    fprintf(stderr, "STAT {\"histories\":%lld,\"ops\":%lld,\"decodes\":%lld,\"suspicious\":%lld,\"emitted\":%lld}\n", st->histories, st->ops, st->decodes, st->suspicious, st->emitted);
    return 0;
}
