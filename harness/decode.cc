// Records, for many matching graphs and detection-event lists, what every decoding entry point of the
// library answers. One JSON record per graph; the specification (DecodeTrace.tla) judges them.
#include "ugbuild.h"

using namespace pm;

struct Ans {
    int st = 9;  // 0 answered, 1 rejected (invalid_argument), 2 other exception, 9 not called
    long long w = 0;
    long long o = 0;  // observable columns
    long long x = 0;  // observables predicted outside the columns in use
    std::vector<std::string> list;
    std::vector<std::array<long long, 3>> raw;
    std::vector<std::pair<long long, long long>> crowd;  // members of the crowd in the answer
};

template <class F>
static Ans guarded(F f) {
    Ans a;
    try {
        f(a);
        a.st = 0;
    } catch (const std::invalid_argument&) {
        a = Ans();
        a.st = 1;
    } catch (const std::exception&) {
        a = Ans();
        a.st = 2;
    }
    return a;
}

static void columns(const GGraph& g, const std::vector<uint8_t>& obs, Ans& a) {
    a.o = 0;
    a.x = 0;
    std::set<int> used;
    for (int c = 0; c < g.k; c++) {
        used.insert(g.colobs[c]);
        if (obs[g.colobs[c]] == 1)
            a.o |= 1LL << c;
        else if (obs[g.colobs[c]] != 0)
            a.x++;
    }
    for (size_t i = 0; i < obs.size(); i++)
        if (obs[i] && !used.count((int)i))
            a.x++;
}

int main(int argc, char** argv) {
    Args A(argc, argv);
    FILE* out = fopen(A.s("--out", "/dev/stdout").c_str(), "w");
    uint64_t seed = A.i("--seed", 1);
    long long emit_every = A.i("--emit-every", 1);  // hand every k-th graph to TLC even if unsuspicious
    long long syn_emit = A.i("--syn-emit", 24);
    long long syn_max = A.i("--syn-max", 4096);
    bool thorough_oor = A.i("--oor", 0);
    GenOpt o;
    o.max_n = A.i("--n", 6);
    o.min_n = A.i("--min-n", 2);
    o.k = A.i("--k", 2);
    o.neg = A.i("--neg", 0);
    o.bnode = A.i("--bnode", 20);
    o.bigK = A.i("--bigk", 0);
    o.zero = A.i("--zero", 30);
    o.maxw = A.i("--maxw", 0);
    o.loops = A.i("--loops", 5);
    o.negloops = A.i("--negloops", 0);
    o.maxedges = A.i("--maxedges", 100);
    int host = (int)A.i("--host", 0);
    // statistics, shared with the children
    struct Stat {
        long long decodes, suspicious, graphs, emitted;
    };
    Stat* st = (Stat*)mmap(nullptr, sizeof(Stat), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    // a particular graph instead of a random one (for findings that are listed)
    std::string fixed = A.s("--fixed", "");
    auto gen = [&](Rng& r) {
        if (fixed == "negative-self-loop") {
            GGraph g;
            g.n = 2;
            g.k = g.K = 1;
            g.colobs = {0};
            g.edges = {{0, 1, 3, {}}, {0, 0, -2, {0}}};
            return g;
        }
        GGraph g = gen_graph(r, o);
        put_in_host(r, g, host);
        return g;
    };
    auto make = [&](long long gi) {
        Rng r(seed * 1000003ull + gi);
        return gen(r);
    };
    // Packed and unpacked observables, and sums of results.
    long long conversions = A.i("--conv", 0);
    for (long long q = 0; q < conversions; q++) {
        Rng r(seed * 1000003ull + 77 + q);
        int k = q < 140 ? (int)(q / 2) : r.range(0, 70);
        obs_int m = q % 2 ? r.next() : r.chance(1, 2) ? ~(obs_int)0 : (obs_int)1 << r.below(64);
        auto pos = [](obs_int x) {
            std::vector<int> v;
            for (int b = 0; b < 64; b++)
                if (x >> b & 1)
                    v.push_back(b);
            return v;
        };
        std::vector<uint8_t> bits(80, 0);
        for (auto& b : bits)
            b = (uint8_t)r.below(2);
        auto pre = bits;
        auto num = [](const std::vector<uint8_t>& v) { return std::vector<int>(v.begin(), v.end()); };
        Ans f = guarded([&](Ans&) { fill_bit_vector_from_obs_mask(m, bits.data(), (size_t)k); });
        obs_int back = 0;
        std::vector<uint8_t> some(bits.begin(), bits.begin() + k);
        Ans b = guarded([&](Ans&) { back = bit_vector_to_obs_mask(some); });
        // sums
        std::vector<uint8_t> x(k), y(k);
        for (int i = 0; i < k; i++) {
            x[i] = (uint8_t)r.below(2);
            y[i] = (uint8_t)r.below(2);
        }
        int wx = r.range(-1000, 1000), wy = r.range(-1000, 1000);
        ExtendedMatchingResult ex(x, wx), ey(y, wy), es = ex + ey, ez = ex, er = ex;
        ez += ey;
        er.reset();
        obs_int mx = r.next(), my = r.next();
        MatchingResult bx(mx, wx), by(my, wy), bs = bx + by, bz = bx;
        bz += by;
        fprintf(out, "%s\n",
            J().kv("kind", J::str("conv")).n("id", q).n("k", k).kv("m", J::arr(pos(m))).kv("pre", J::arr(num(pre))).n("sf", f.st)
                .kv("out", J::arr(num(bits))).n("sb", b.st).kv("back", J::arr(pos(back)))
                .kv("x", J::arr(num(x))).kv("y", J::arr(num(y))).n("wx", wx).n("wy", wy)
                .kv("sum", J::arr(num(es.obs_crossed))).n("ws", es.weight).n("same", ez == es && !(ez != es))
                .n("eq", ex == ey).n("ne", ex != ey)
                .kv("zero", J::arr(num(er.obs_crossed))).n("wz", er.weight)
                .kv("mx", J::arr(pos(mx))).kv("my", J::arr(pos(my))).kv("mm", J::arr(pos(bs.obs_mask))).n("mw", bs.weight)
                .n("msame", bz == bs && !(bz != bs)).n("meq", bx == by).n("mne", bx != by)
                .done().c_str());
    }
    auto unit = [&](long long gi) {
        Rng r(seed * 1000003ull + gi);
        GGraph g = gen(r);
        auto eff = effective(g);
        auto tab = min_table(g.n + g.k, eff);
        auto tabi = min_table(g.n + g.k, eff, true);
        uint32_t detmask = (1u << g.n) - 1;
        std::vector<long long> best(1u << g.n, GINF), besti(1u << g.n, GINF);
        for (uint32_t x = 0; x < tab.size(); x++) {
            best[x & detmask] = std::min(best[x & detmask], tab[x]);
            besti[x & detmask] = std::min(besti[x & detmask], tabi[x]);
        }
        auto ug = build_user_graph(g);
        bool negw = g.has_neg();
        Mwpm& mwpm = ug.get_mwpm_with_search_graph();
        double norm = mwpm.flooder.graph.normalising_constant;
        std::vector<uint32_t> syns;
        if ((1LL << g.n) <= syn_max)
            for (uint32_t s = 0; s < (1u << g.n); s++)
                syns.push_back(s);
        else
            for (long long i = 0; i < syn_max; i++)
                syns.push_back((uint32_t)r.below(1u << g.n));
        r.shuffle(syns);
        std::vector<std::pair<int, std::string>> recs;  // (suspicion, record)
        for (uint32_t s : syns) {
            std::vector<uint64_t> ev;
            for (int i = 0; i < g.n; i++)
                if (s >> i & 1)
                    ev.push_back(g.at(i));
            r.shuffle(ev);
            // how much of the crowd has events
            size_t crowd = g.members.empty() || r.chance(1, 10) ? 0 : r.chance(1, 3) ? (size_t)r.below(g.members.size() + 1) : g.members.size();
            if (crowd) {
                g.excite(crowd, ev);
                int style = r.range(0, 2);
                if (style == 0)
                    r.shuffle(ev);
                else if (style == 1)
                    std::reverse(ev.begin(), ev.end());
            }
            long long cw = g.crowd_weight(crowd);
            uint32_t co = g.crowd_labels(crowd);
            bool oor = false;
            if (r.chance(thorough_oor ? 30 : 2, 100)) {
                uint64_t bad = r.chance(1, 3) ? (uint64_t)g.size() : g.size() + r.below(1000);
                if (r.chance(1, 10))
                    bad = 0xFFFFFFFFFFFFull;
                ev.insert(ev.begin() + r.below(ev.size() + 1), bad);
                oor = true;
            }
            std::vector<long long> ev_out;
            for (auto e : ev)
                if (!g.member_of.count((int)std::min<uint64_t>(e, 1u << 30)))
                    ev_out.push_back(e >= g.size() ? 2000000 : g.name((long long)e));
            auto note_call = [&](const char* call) {
                progress()->sub++;
                note("{\"call\":\"" + std::string(call) + "\",\"ev\":" + J::arr(ev_out) + "}");
            };
            // events that count: not on boundary nodes
            uint32_t eff_s = 0;
            for (auto e : ev)
                if (e < g.size() && g.name((long long)e) < g.n && !g.bnodes.count((int)g.name((long long)e)))
                    eff_s ^= 1u << g.name((long long)e);
            bool feasible = !oor && best[eff_s] < GINF;
            int order[4] = {0, 1, 2, 3};
            for (int i = 3; i > 0; i--)
                std::swap(order[i], order[r.below(i + 1)]);
            bool with_preset = r.chance(1, 5);
            Ans a[4];
            for (int q = 0; q < 4; q++) {
                switch (order[q]) {
                    case 0:
                        note_call("decode");
                        a[0] = guarded([&](Ans& x) {
                            // the answer is added to what is there
                            std::vector<uint8_t> obs(g.K + 16, 0), before;
                            if (with_preset)
                                for (auto& b : obs)
                                    b = (uint8_t)r.below(2);
                            before = obs;
                            total_weight_int w = with_preset ? (total_weight_int)r.below(1ull << 40) - (1ll << 39) : 0, w0 = w;
                            decode_detection_events(mwpm, ev, obs.data(), w, false);
                            x.w = w - w0;
                            for (size_t i = 0; i < obs.size(); i++)
                                obs[i] ^= before[i];
                            columns(g, obs, x);
                        });
                        break;
                    case 1:
                        if (g.K > 64)
                            break;
                        note_call("decode64");
                        a[1] = guarded([&](Ans& x) {
                            auto res = decode_detection_events_for_up_to_64_observables(mwpm, ev, false);
                            x.w = res.weight;
                            std::vector<uint8_t> obs(64, 0);
                            for (int i = 0; i < 64; i++)
                                obs[i] = (res.obs_mask >> i) & 1;
                            columns(g, obs, x);
                        });
                        break;
                    case 2:
                        if (negw)
                            break;
                        note_call("pairs");
                        a[2] = guarded([&](Ans& x) {
                            decode_detection_events_to_match_edges(mwpm, ev);
                            for (auto& m : mwpm.flooder.match_edges) {
                                long long f = g.name(m.loc_from - &mwpm.flooder.graph.nodes[0]);
                                long long t = m.loc_to ? g.name(m.loc_to - &mwpm.flooder.graph.nodes[0]) : -1;
                                long long om = 0;
                                if (g.K <= 64) {
                                    std::vector<uint8_t> obs(64, 0);
                                    for (int i = 0; i < 64; i++)
                                        obs[i] = (m.obs_mask >> i) & 1;
                                    Ans tmp;
                                    columns(g, obs, tmp);
                                    om = tmp.o;
                                    x.x += tmp.x;
                                }
                                long long mem = g.member(m.loc_from - &mwpm.flooder.graph.nodes[0], m.loc_to ? m.loc_to - &mwpm.flooder.graph.nodes[0] : -1);
                                if (mem >= 0) {
                                    x.crowd.push_back({mem, om});
                                    continue;
                                }
                                x.raw.push_back({f, t, om});
                                x.list.push_back("[" + std::to_string(f) + "," + std::to_string(t) + "," + std::to_string(om) + "]");
                            }
                        });
                        break;
                    default:
                        note_call("edges");
                        a[3] = guarded([&](Ans& x) {
                            std::vector<int64_t> ed;
                            decode_detection_events_to_edges(mwpm, ev, ed);
                            for (auto& p : g.collapse(ed)) {
                                long long f = g.name(p.first), t = g.name(p.second);
                                long long mem = g.member(p.first, p.second);
                                if (mem >= 0) {
                                    x.crowd.push_back({mem, 0});
                                    continue;
                                }
                                x.raw.push_back({f, t, 0});
                                x.list.push_back("[" + std::to_string(f) + "," + std::to_string(t) + "]");
                            }
                            if (ed.size() % 2)
                                x.x++;
                        });
                }
            }
            st->decodes += 4;
            // suspicion only steers which records TLC sees first
            bool sus = false;
            auto sw = [&](const Ans& x) {
                if (x.st == 9)
                    return;
                if ((x.st == 0) != feasible || x.st == 2 || x.x)
                    sus = true;
            };
            for (auto& x : a)
                sw(x);
            if (feasible && !sus) {
                for (int q = 0; q < 2; q++)
                    if (a[q].st == 0) {
                        if ((double)a[q].w != norm * (best[eff_s] + cw))
                            sus = true;
                        else if (tab[eff_s | (((uint32_t)a[q].o ^ co) << g.n)] != best[eff_s])
                            sus = true;
                    }
                for (int q = 2; q < 4; q++)
                    if (a[q].st == 0) {
                        std::sort(a[q].crowd.begin(), a[q].crowd.end());
                        if (a[q].crowd.size() != crowd)
                            sus = true;
                        for (size_t i = 0; i < a[q].crowd.size() && !sus; i++) {
                            uint32_t m = 0;
                            for (int c : g.members[i].cols)
                                m ^= 1u << c;
                            if (a[q].crowd[i].first != (long long)i || (q == 2 && g.K <= 64 && a[q].crowd[i].second != m))
                                sus = true;
                        }
                    }
                if (a[2].st == 0) {
                    long long tot = 0;
                    uint32_t seen = 0;
                    for (auto& p : a[2].raw) {
                        if (p[0] < 0 || p[0] >= g.n || p[1] < -1 || p[1] >= g.n) {
                            sus = true;
                            break;
                        }
                        uint32_t m = 1u << p[0];
                        if (p[1] >= 0)
                            m |= 1u << p[1];
                        if (seen & m)
                            sus = true;
                        seen |= m;
                        long long d = p[1] >= 0 ? besti[m] : best[m];
                        long long dd = p[1] >= 0 ? tabi[m | ((uint32_t)p[2] << g.n)] : tab[m | ((uint32_t)p[2] << g.n)];
                        if (g.K <= 64 && dd != d)
                            sus = true;
                        tot += d;
                    }
                    if (seen != eff_s || tot != best[eff_s])
                        sus = true;
                }
                if (a[3].st == 0) {
                    long long tot = 0;
                    uint32_t par = 0;
                    std::set<std::pair<long long, long long>> seen;
                    for (auto& p : a[3].raw) {
                        auto key = std::make_pair(std::min(p[0], p[1]), std::max(p[0], p[1]));
                        if (!seen.insert(key).second)
                            sus = true;
                        bool found = false;
                        for (auto& e : eff)
                            if (std::min(e.u, e.v) == key.first && std::max(e.u, e.v) == key.second) {
                                tot += e.w;
                                par ^= e.mask & detmask;
                                found = true;
                            }
                        if (!found)
                            sus = true;
                    }
                    for (auto& e : eff)
                        if (e.u == e.v && e.w < 0 && fixed.empty() && !seen.count({e.u, e.v}))
                            tot += e.w;
                    if (par != eff_s || tot != best[eff_s])
                        sus = true;
                }
            }
            auto ansj = [&](const Ans& x) {
                return "[" + std::to_string(x.st) + "," + J::num32(x.w) + "," + std::to_string(x.o) + "," + std::to_string(x.x) + "]";
            };
            recs.push_back(
                {sus,
                 J().kv("ev", J::arr(ev_out)).kv("a", ansj(a[0])).kv("b", ansj(a[1])).kv("c", ansj(a[2])).kv("d", ansj(a[3]))
                     .kv("pairs", J::raw(a[2].list)).kv("edges", J::raw(a[3].list)).n("t", (long long)crowd)
                     .kv("cp", GGraph::intervals(a[2].crowd)).kv("ce", GGraph::intervals(a[3].crowd)).done()});
        }
        st->graphs++;
        bool any = false;
        for (auto& x : recs)
            any |= x.first;
        if (any)
            st->suspicious++;
        if (any || gi % emit_every == 0 || A.i("--only", -1) >= 0) {
            st->emitted++;
            std::stable_sort(recs.begin(), recs.end(), [](const auto& x, const auto& y) { return x.first > y.first; });
            std::vector<std::string> syn;
            for (auto& x : recs)
                if ((long long)syn.size() < syn_emit)
                    syn.push_back(x.second);
            long long nn = (long long)norm;
            if ((double)nn != norm)
                nn = 0;
            fprintf(out, "%s\n",
                J().kv("kind", J::str("graph")).n("id", gi).n("sus", any).kv("g", g.json()).n("norm", nn).kv("syn", J::raw(syn)).done().c_str());
        }
    };
    auto crash = [&](long long gi, const std::string& why) {
        GGraph g = make(gi);
        st->suspicious++;
        std::string nt = progress()->note;
        if (nt.empty() || nt[0] != '{')
            nt = "{\"call\":\"build\",\"ev\":[]}";
        fprintf(out, "%s\n",
            J().kv("kind", J::str("crash")).n("id", gi).n("sus", 1).kv("g", g.json()).kv("why", J::str(why)).kv("at", nt).done().c_str());
    };
    run_units(A, "--graphs", 100, out, unit, crash);
    fclose(out);
    fprintf(stderr, "STAT {\"graphs\":%lld,\"decodes\":%lld,\"suspicious\":%lld,\"emitted\":%lld}\n", st->graphs, st->decodes, st->suspicious, st->emitted);
    return 0;
}
