// Noise sampled from graphs with an editing history; judged by NoiseTrace.tla.
#include <cmath>
#include <map>

#include "pymatching/rand/rand_gen.h"
#include "ugbuild.h"
using namespace pm;

int main(int argc, char** argv) {
    Args A(argc, argv);
    FILE* out = fopen(A.s("--out", "/dev/stdout").c_str(), "w");
    uint64_t seed = A.i("--seed", 1);
    int len = (int)A.i("--len", 10), maxn = (int)A.i("--n", 6);
    long long emit_every = A.i("--emit-every", 1);
    int host = (int)A.i("--host", 0);
    bool freq = A.i("--freq", 0);
    struct Stat {
        long long histories, samples, suspicious, emitted;
    };
    auto* st = shared_stat<Stat>();
    auto unit = [&](long long k) {
        Rng r(seed * 1000003ull + k);
        std::vector<std::string> lines;
        UserGraph ug;
        // hosted: nodes and observables far apart, hundreds of impossible edges among them
        bool wide = host && r.chance(2, 3);
        static const int pool[] = {0, 1, 2, 63, 64, 65, 127, 128, 254, 255, 256, 257, 300, 511, 512, 65534, 65535, 65536, 70000};
        std::vector<int> at, oat{0, 1, 2, 3, 4, 5, 6};
        for (int i = 0; i <= maxn; i++)
            at.push_back(i);
        if (wide) {
            for (auto* p : {&at, &oat}) {
                std::set<int> pick;
                while (pick.size() < p->size())
                    pick.insert(pool[r.range(0, p == &at && host == 2 ? 18 : 14)]);
                p->assign(pick.begin(), pick.end());
                r.shuffle(*p);
            }
        }
        std::map<int, int> pos, opos;
        for (int i = 0; i < (int)at.size(); i++)
            pos[at[i]] = i;
        for (int i = 0; i < (int)oat.size(); i++)
            opos[oat[i]] = i;
        if (host && r.chance(1, 2)) {
            int c = r.range(200, 320), hub = at[r.range(0, 1)];
            for (int i = 0; i < c; i++)
                ug.add_or_merge_edge(i % 2 ? hub : 1000 + i, i % 2 ? 1000 + i : hub, {(size_t)r.range(0, 80)}, 1, 0, DISALLOW);
        }
        // one sample into guarded arrays: detector mask, observable mask, anything else out of place
        auto sample = [&](long long& dm, long long& om, long long& bad) {
            size_t n = ug.get_num_nodes(), K = ug.get_num_observables();
            std::vector<uint8_t> e(K + 32, 0xA5), s(n + 32, 0x5A);
            std::fill(e.begin() + 16, e.begin() + 16 + K, 0);
            std::fill(s.begin() + 16, s.begin() + 16 + n, 0);
            ug.add_noise(e.data() + 16, s.data() + 16);
            dm = om = bad = 0;
            for (size_t i = 0; i < e.size(); i++)
                if (i < 16 || i >= 16 + K)
                    bad += e[i] != 0xA5;
                else if (e[i] > 1)
                    bad++;
                else if (e[i]) {
                    auto x = opos.find((int)i - 16);
                    if (x == opos.end())
                        bad++;
                    else
                        om |= 1LL << x->second;
                }
            for (size_t i = 0; i < s.size(); i++)
                if (i < 16 || i >= 16 + n)
                    bad += s[i] != 0x5A;
                else if (s[i] > 1)
                    bad++;
                else if (s[i]) {
                    auto x = pos.find((int)i - 16);
                    if (x == pos.end())
                        bad++;
                    else
                        dm |= 1LL << x->second;
                }
            st->samples++;
        };
        if (freq) {
            // every edge visible on its own: how often does each, and each pair, flip?
            int fine = r.chance(1, 6);  // probabilities in units of 2^-10
            int n = r.range(2, 6), N = fine ? 32768 : 1024, unit = fine ? 1024 : 16;
            std::vector<int> a(n);
            for (int i = 0; i < n; i++) {
                a[i] = fine && r.chance(2, 3) ? r.range(1, 12) : r.range(0, unit);
                if (r.chance(1, 2))
                    ug.add_or_merge_boundary_edge(at[i], {(size_t)oat[i]}, 1, a[i] / (double)unit);
                else
                    ug.add_or_merge_edge(at[i], at[n], {(size_t)oat[i]}, 1, a[i] / (double)unit);
            }
            ug.set_boundary({(size_t)at[n]});
            pm::set_seed((unsigned)r.next());
            std::vector<int> c(n, 0), pc(n * n, 0), sc(n, 0);
            long long last = 0, bads = 0;
            for (int t = 0; t < N; t++) {
                long long dm, om, bad;
                sample(dm, om, bad);
                bads += bad + (dm != om);
                // flipped in two samples that do not overlap with others
                for (int i = 0; i < n && t % 2; i++)
                    sc[i] += om >> i & last >> i & 1;
                last = om;
                for (int i = 0; i < n; i++)
                    if (om >> i & 1) {
                        c[i]++;
                        for (int j = 0; j < n; j++)
                            pc[i * n + j] += om >> j & 1;
                    }
            }
            fprintf(out, "%s\n", J().kv("kind", J::str("freq")).n("id", k).n("N", N).n("unit", unit).n("bad", bads).kv("sc", J::arr(sc)).kv("a", J::arr(a)).kv("c", J::arr(c)).kv("pc", J::arr(pc)).done().c_str());
            st->histories++;
            st->emitted++;
            return;
        }
        lines.push_back(J().kv("kind", J::str("begin")).n("id", k).done());
        bool mayinvalid = r.chance(1, 3);
        int extreme = r.range(0, 3);  // many certain / impossible edges
        bool sus = false;
        for (int s = 0; s < len; s++) {
            J j;
            j.kv("kind", J::str("step"));
            int what = r.range(0, 99);
            if (what < 50 || s < 3) {
                int u0 = r.range(0, maxn - 1), v0 = r.chance(1, 4) ? -1 : r.range(0, maxn - 1);
                int u = at[u0], v = v0 == -1 ? -1 : at[v0];
                std::vector<size_t> obs, obs0;
                int oc = r.range(0, 3);
                for (int i = 0; i < oc; i++)
                    obs0.push_back(r.range(0, 3)), obs.push_back(oat[obs0.back()]);
                int strat = r.range(1, 4);
                if (strat == SMALLEST_WEIGHT)
                    strat = KEEP_ORIGINAL;
                int p16 = r.chance(extreme, 4) ? 16 * r.range(0, 1) : r.range(0, 16);
                if (mayinvalid && r.chance(1, 6))
                    p16 = r.chance(1, 2) ? -1 : 32;
                double p = p16 == -1 ? -1 : p16 / 16.0;
                note("add");
                if (v == -1)
                    ug.add_or_merge_boundary_edge(u, obs, 1, p, (MERGE_STRATEGY)strat);
                else
                    ug.add_or_merge_edge(u, v, obs, 1, p, (MERGE_STRATEGY)strat);
                j.kv("op", J::str("add")).n("u", u0).n("v", v0).kv("w", J::wide(65536)).n("wi", 1).n("a16", 1).n("p16", p16).kv("obs", J::arr(obs0)).n("strat", strat);
            } else if (what < 60) {
                std::set<size_t> nb, nb0;
                int c = r.range(0, 3);
                for (int i = 0; i < c; i++)
                    nb0.insert(r.range(0, maxn - 1));
                for (auto x : nb0)
                    nb.insert(at[x]);
                note("boundary");
                ug.set_boundary(nb);
                j.kv("op", J::str("boundary")).kv("b", J::arr(nb0));
            } else {
                int cnt = r.range(1, 5);
                unsigned sd = r.chance(1, 4) ? (unsigned)r.range(0, 3) : (unsigned)r.next();
                note("noise");
                std::vector<long long> D, O, D2, O2;
                long long bad = 0;
                for (int rep = 0; rep < 2; rep++) {
                    pm::set_seed(sd);
                    for (int i = 0; i < cnt; i++) {
                        long long a, b, c;
                        sample(a, b, c);
                        bad += c;
                        (rep ? D2 : D).push_back(a);
                        (rep ? O2 : O).push_back(b);
                    }
                    if (rep == 0 && r.chance(1, 2))
                        pm::randomize();
                }
                if (D != D2 || O != O2 || bad)
                    sus = true;
                j.kv("op", J::str("noise")).kv("d", J::arr(D)).kv("o", J::arr(O)).kv("d2", J::arr(D2)).kv("o2", J::arr(O2)).n("bad", bad);
            }
            lines.push_back(j.done());
        }
        st->histories++;
        st->suspicious += sus;
        if (sus || k % emit_every == 0 || A.i("--only", -1) >= 0) {
            st->emitted++;
            for (auto& l : lines)
                fprintf(out, "%s\n", l.c_str());
        }
    };
    auto crash = [&](long long k, const std::string& why) {
        st->suspicious++;
        fprintf(out, "%s\n", J().kv("kind", J::str("crash")).n("id", k).kv("why", J::str(why)).kv("at", J::str(progress()->note)).done().c_str());
    };
    run_units(A, "--histories", 100, out, unit, crash);
    fclose(out);
    fprintf(stderr, "STAT {\"histories\":%lld,\"samples\":%lld,\"suspicious\":%lld,\"emitted\":%lld}\n", st->histories, st->samples, st->suspicious, st->emitted);
    return 0;
}
