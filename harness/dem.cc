// Random detector error models, loaded with and without correlations; what the resulting graph holds is
// recorded and judged by DemTrace.tla.
#include <cmath>

#include "ugbuild.h"
using namespace pm;

struct Comp {
    std::vector<int> dets, obs;
};
struct Ins {
    int a;  // probability in thirty-seconds
    std::vector<Comp> comps;
};

// in units of 2^-(20+s)
static long long qof(double w, int s = 0) {
    double x = std::ldexp(1 / (1 + std::exp(w)), 20 + s);
    return x < 1e9 ? std::llround(x) : 1000000000;
}
static long long pof(double p, int s = 0) {
    double x = std::ldexp(p, 20 + s);
    return p >= 0 && p <= 1 ? x < 1e9 ? std::llround(x) : 1000000000 : -1;
}
static long long vtx(size_t v) { return v == SIZE_MAX ? -1 : (long long)v; }

int main(int argc, char** argv) {
    Args A(argc, argv);
    FILE* out = fopen(A.s("--out", "/dev/stdout").c_str(), "w");
    uint64_t seed = A.i("--seed", 1);
    long long emit_every = A.i("--emit-every", 10);
    int maxd = (int)A.i("--n", 5), maxi = (int)A.i("--ins", 10);
    bool padded = A.i("--pads", 0);  // among hundreds or very many errors of detectors of their own
    struct Stat {
        long long models, refused, edges, suspicious, emitted;
    };
    auto* st = shared_stat<Stat>();
    auto unit = [&](long long k) {
        Rng r(seed * 1000003ull + k);
        int mode = r.range(0, 2);  // 0 plain, 1 correlations, 2 correlations without decomposed components in the edges
        int nd = r.range(1, maxd), no = r.range(0, 3);
        int ni = r.range(0, maxi);
        bool odd = r.chance(1, 6);  // may hold what correlated loading refuses
        // probabilities may be tiny, indices large
        static const int scales[] = {4, 10, 17, 40, 100, 1000};
        int sc = maxi <= 14 && r.chance(1, 4) ? scales[r.range(0, 5)] : 0;
        std::vector<int> dn, on;
        static const int pool[] = {0, 1, 2, 63, 64, 65, 127, 128, 254, 255, 256, 257, 300, 511, 512, 65534, 65535, 65536, 70000};
        int dtop = r.chance(1, 60) ? 19 : r.chance(1, 8) ? 15 : 0, otop = r.chance(1, 6) ? 15 : 0;
        for (int i = 0; i < nd; i++)
            dn.push_back(dtop ? -1 : i);
        for (int i = 0; dtop && i < nd;) {
            int c = pool[r.range(0, dtop - 1)];
            if (std::find(dn.begin(), dn.end(), c) == dn.end())
                dn[i++] = c;
        }
        for (int i = 0; i < 3; i++)
            on.push_back(otop ? -1 : i);
        for (int i = 0; otop && i < 3;) {
            int c = pool[r.range(0, otop - 1)];
            if (std::find(on.begin(), on.end(), c) == on.end())
                on[i++] = c;
        }
        std::vector<Ins> ins;
        stim::DetectorErrorModel dem;
        static const int sizes[] = {253, 254, 255, 256, 257, 300, 511, 512, 600, 65530, 65536, 66000};
        int pads = !padded ? 0 : sizes[r.range(0, r.chance(1, 8) ? 11 : 8)], first = 80000, put = 0;
        auto pad = [&](int upto) {
            for (; put < upto; put++) {
                stim::DemInstruction di;
                di.arg_data.push_back(std::ldexp(0.25, -sc));
                di.target_data.push_back(stim::DemTarget::relative_detector_id(first + put));
                dem.instructions.push_back(di);
            }
        };
        for (int i = 0; i < ni; i++) {
            if (pads && r.chance(1, 3))
                pad(r.range(put, pads));
            Ins x;
            int hi = mode == 0 ? 31 : odd && r.chance(1, 8) ? 31 : 16;
            x.a = r.chance(1, 10) ? 0 : r.chance(1, 8) ? 16 : r.range(1, hi);
            int nc = r.chance(1, 2) ? 1 : r.range(2, 4);
            std::set<std::set<int>> seen;
            for (int c = 0; c < nc; c++) {
                Comp q;
                int m = r.range(0, 99);
                int cnt = m < 35 ? 1 : m < 94 ? 2 : (mode == 0 || odd) ? (r.chance(1, 2) ? 0 : 3) : 2;
                if (nc == 1 && m >= 96 && cnt == 2)
                    cnt = 0;
                std::set<int> s;
                for (int t = 0; t < cnt * 4 && (int)s.size() < cnt; t++) {
                    int d = dn[r.range(0, nd - 1)];
                    if (s.insert(d).second)
                        q.dets.push_back(d);
                }
                if (seen.count(s))
                    continue;  // a decomposition that names the same edge twice is not modelled
                seen.insert(s);
                int ob = no ? r.range(0, 2) : 0;
                for (int t = 0; t < ob; t++)
                    q.obs.push_back(on[r.range(0, no - 1)]);
                x.comps.push_back(q);
            }
            if (x.comps.empty())
                x.comps.push_back({});
            ins.push_back(x);
            stim::DemInstruction di;
            di.arg_data.push_back(std::ldexp(x.a / 32.0, -sc));
            for (size_t c = 0; c < x.comps.size(); c++) {
                if (c)
                    di.target_data.push_back(stim::DemTarget::separator());
                std::vector<stim::DemTarget> ts;
                for (int d : x.comps[c].dets)
                    ts.push_back(stim::DemTarget::relative_detector_id(d));
                // observables may stand anywhere in a component
                for (int o : x.comps[c].obs) {
                    auto t = stim::DemTarget::observable_id(o);
                    if (r.chance(1, 3))
                        ts.insert(ts.begin(), t);
                    else
                        ts.push_back(t);
                }
                // the order in which they are listed is what counts
                x.comps[c].obs.clear();
                for (auto& t : ts)
                    if (t.is_observable_id())
                        x.comps[c].obs.push_back((int)t.val());
                for (auto& t : ts)
                    di.target_data.push_back(t);
            }
            ins.back() = x;
            dem.instructions.push_back(di);
        }
        pad(pads);
        // declared counts: at least what occurs, perhaps more
        int D = pads ? first + pads : 0, O = 0;
        for (auto& x : ins)
            for (auto& c : x.comps) {
                for (int d : c.dets)
                    D = std::max(D, d + 1);
                for (int o : c.obs)
                    O = std::max(O, o + 1);
            }
        D += r.chance(1, 3) ? r.range(1, 3) : 0;
        O += r.chance(1, 3) ? r.range(1, 3) : 0;
        dem.min_detectors = D;
        dem.min_observables = O;
        note("load");
        int status = 0, refuse = 0, searched = 0;
        UserGraph ug;
        try {
            if (mode < 2)
                ug = detector_error_model_to_user_graph(dem, mode == 1, NUM_DISTINCT_WEIGHTS);
            else {
                ug = UserGraph(dem.count_detectors(), dem.count_observables());
                std::map<std::pair<size_t, size_t>, std::map<std::pair<size_t, size_t>, double>> joint;
                iter_dem_instructions_include_correlations(
                    dem,
                    [&](double p, const std::vector<size_t>& d, std::vector<size_t>& o) {
                        ug.handle_dem_instruction_include_correlations(p, d, o);
                    },
                    joint, false);
                ug.populate_implied_edge_weights(joint);
            }
        } catch (const std::invalid_argument&) {
            status = 1;
        }
        J j;
        j.kv("kind", J::str("model")).n("id", k).n("mode", mode).n("s", sc).n("pads", pads).n("D", D).n("O", O).n("st", status);
        std::vector<std::string> is;
        for (auto& x : ins) {
            std::vector<std::string> cs;
            for (auto& c : x.comps)
                cs.push_back("[" + J::arr(c.dets) + "," + J::arr(c.obs) + "]");
            is.push_back("[" + std::to_string(x.a) + "," + J::raw(cs) + "]");
        }
        j.kv("ins", J::raw(is));
        std::vector<std::string> es;
        int padok = 0;
        std::set<size_t> padseen;
        auto is_pad = [&](const UserEdge& e) {
            return pads && e.node2 == SIZE_MAX && e.node1 >= (size_t)first && e.node1 < (size_t)(first + pads);
        };
        if (status == 0) {
            for (auto& e : ug.edges) {
                if (is_pad(e)) {
                    padok += std::abs(e.error_probability * std::ldexp(4, sc) - 1) < 1e-9 && qof(e.weight, sc) == 262144 && e.observable_indices.empty() &&
                             e.implied_weights_for_other_edges.empty() && padseen.insert(e.node1).second;
                    continue;
                }
                std::vector<std::string> im;
                for (auto& w : e.implied_weights_for_other_edges)
                    im.push_back("[" + J::num32(vtx(w.node1)) + "," + J::num32(vtx(w.node2)) + "," + J::num32(qof(w.implied_weight)) + "]");
                es.push_back("[" + J::num32(vtx(e.node1)) + "," + J::num32(vtx(e.node2)) + "," + J::num32(qof(e.weight, sc)) + "," +
                             J::num32(pof(e.error_probability, sc)) + "," + J::arr(e.observable_indices) + "," + J::raw(im) + "]");
                st->edges++;
            }
            // is a correlated decode of it refused?
            if (mode < 2) {
                note("decode");
                try {
                    auto& m = ug.get_mwpm_with_search_graph();
                    std::vector<uint8_t> obs(ug.get_num_observables() + 70, 0);
                    total_weight_int w = 0;
                    decode_detection_events(m, {}, obs.data(), w, true);
                } catch (const std::invalid_argument&) {
                    refuse = 1;
                }
            }
        } else
            st->refused++;
        j.kv("edges", J::raw(es)).n("padok", padok).n("refuse", refuse).n("n", status ? 0 : ug.get_num_nodes()).n("K", status ? 0 : ug.get_num_observables());
        // selection: an independent computation in floating point
        bool bad = false, sus = false;
        typedef std::pair<long long, long long> Key;
        std::map<Key, double> P;
        std::map<Key, std::vector<size_t>> L;
        std::map<Key, std::map<Key, double>> JP;
        auto xr = [](double a, double b) { return a * (1 - b) + b * (1 - a); };
        for (auto& x : ins) {
            double p = std::ldexp(x.a / 32.0, -sc);
            if (sc == 0 && x.a > 16)
                bad = true;
            if (x.a == 0)
                continue;
            std::vector<Key> ks;
            for (auto& c : x.comps) {
                if (c.dets.size() > 2 || (c.dets.empty() && x.comps.size() > 1))
                    bad = true;
                if (c.dets.empty() || c.dets.size() > 2)
                    continue;
                Key kk = c.dets.size() == 1 ? Key(c.dets[0], -1) : Key(std::min(c.dets[0], c.dets[1]), std::max(c.dets[0], c.dets[1]));
                ks.push_back(kk);
                if (mode == 2 && x.comps.size() > 1)
                    continue;
                if (!L.count(kk))
                    L[kk] = std::vector<size_t>(c.obs.begin(), c.obs.end());
                P[kk] = xr(P[kk], p);
            }
            for (auto& a : ks)
                for (auto& b : ks)
                    JP[a][b] = xr(JP[a][b], p);
        }
        if (status != (mode > 0 && bad))
            sus = true;
        else if (status == 0) {
            if (refuse != (mode == 0) && mode < 2)
                sus = true;
            if ((int)ug.get_num_nodes() != D || (int)ug.get_num_observables() != O || ug.edges.size() != P.size() + pads || padok != pads)
                sus = true;
            for (auto& e : ug.edges) {
                if (is_pad(e))
                    continue;
                Key kk = e.node2 == SIZE_MAX ? Key(e.node1, -1) : Key(std::min(e.node1, e.node2), std::max(e.node1, e.node2));
                if (!P.count(kk) || !(std::abs(P[kk] - e.error_probability) <= 1e-9 * P[kk]) || !(std::abs(1 / (1 + std::exp(e.weight)) - P[kk]) <= 1e-9 * P[kk]) || L[kk] != e.observable_indices)
                    sus = true;
                if (mode) {
                    if (e.implied_weights_for_other_edges.size() + 1 != JP[kk].size())
                        sus = true;
                    for (auto& w : e.implied_weights_for_other_edges) {
                        Key o = vtx(w.node1) == -1 ? Key(w.node2, -1) : vtx(w.node2) == -1 ? Key(w.node1, -1) : Key(std::min(w.node1, w.node2), std::max(w.node1, w.node2));
                        double ip = std::min(0.5, JP[kk][o] / JP[kk][kk]);
                        if (!(std::abs(1 / (1 + std::exp(w.implied_weight)) - ip) <= 1e-9))
                            sus = true;
                    }
                } else if (e.implied_weights_for_other_edges.size())
                    sus = true;
            }
        }
        st->models++;
        st->suspicious += sus;
        if (sus || k % emit_every == 0 || A.i("--only", -1) >= 0) {
            st->emitted++;
            fprintf(out, "%s\n", j.done().c_str());
        }
    };
    auto crash = [&](long long k, const std::string& why) {
        st->suspicious++;
        fprintf(out, "%s\n", J().kv("kind", J::str("crash")).n("id", k).kv("why", J::str(why)).kv("at", J::str(progress()->note)).done().c_str());
    };
    run_units(A, "--models", 100, out, unit, crash);
    fclose(out);
    fprintf(stderr, "STAT {\"models\":%lld,\"refused\":%lld,\"edges\":%lld,\"suspicious\":%lld,\"emitted\":%lld}\n", st->models, st->refused, st->edges, st->suspicious, st->emitted);
    return 0;
}
