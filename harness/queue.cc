// Drives the real flooding queue and event tracker: replays histories generated from the specification
// and random long histories, and records what happened.
#include <fstream>
#include <map>
#include <set>
#include <sstream>

#include "common.h"
#include "pymatching/sparse_blossom/tracker/queued_event_tracker.h"
#include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"

using namespace pm;

static DetectorNode* fake(long long id) { return (DetectorNode*)(uintptr_t)(0x1000 + id * 16); }
static long long unfake(const FloodCheckEvent& e) { return ((long long)(uintptr_t)e.data_look_at_node - 0x1000) / 16; }

struct Op {
    int op;  // 1 enqueue at now+d, 2 dequeue, 3 clear, 4 reset, 5 enqueue in the past (validating queue)
    long long d;
};

// The bookkeeping that decides whether a history is suspicious (never the verdict).
struct Shadow {
    long long now;
    std::set<std::pair<long long, long long>> pend;  // (time, id)
};

template <bool V>
static bool run_history(const std::vector<Op>& ops, long long base, long long scale, std::vector<std::string>& lines, long long id, bool expect) {
    radix_heap_queue<V> q;
    q.cur_time = base;
    Shadow sh{base, {}};
    bool sus = false;
    long long seg = base;
    long long next = 1;
    auto obs = [&](J j) {
        if (q.cur_time != sh.now || q.size() != sh.pend.size() || q.empty() != sh.pend.empty())
            sus = true;
        lines.push_back(j.w("now", q.cur_time).n("size", (long long)q.size()).done());
    };
    lines.push_back(J().kv("kind", J::str("begin")).n("id", id).kv("op", J::str("begin")).w("now", base).done());
    for (auto& o : ops) {
        progress()->sub++;
        J j;
        j.kv("kind", J::str("step"));
        if (o.op == 1) {
            long long t = q.cur_time + o.d * scale;
            q.enqueue(FloodCheckEvent(fake(next), cyclic_time_int{t}));
            sh.pend.insert({t, next});
            j.kv("op", J::str("enq")).n("e", next).w("t", t);
            next++;
        } else if (o.op == 5) {
            long long t = q.cur_time - o.d;
            try {
                q.enqueue(FloodCheckEvent(fake(next), cyclic_time_int{t}));
                sus = true;
                j.kv("op", J::str("enq")).n("e", next).w("t", t);
                next++;
            } catch (const std::invalid_argument&) {
                j.kv("op", J::str("refused")).w("t", t);
            }
        } else if (o.op == 2) {
            auto e = q.dequeue();
            if (e.tentative_event_type == NO_FLOOD_CHECK_EVENT) {
                j.kv("op", J::str("none"));
                if (!sh.pend.empty() || (expect && o.d != -1))
                    sus = true;
            } else {
                long long eid = unfake(e);
                j.kv("op", J::str("deq")).n("e", eid).w("tv", (long long)(uint32_t)e.time.value);
                bool found = false;
                if (!sh.pend.empty())
                    for (auto& p : sh.pend)
                        if (p.second == eid && p.first == sh.pend.begin()->first && (uint32_t)p.first == e.time.value) {
                            sh.now = p.first;
                            if (expect && p.first != seg + o.d * scale)
                                sus = true;  // the specification's own expectation
                            sh.pend.erase(p);
                            found = true;
                            break;
                        }
                if (!found || e.tentative_event_type != LOOK_AT_NODE)
                    sus = true;
            }
        } else if (o.op == 3) {
            q.clear();
            sh.pend.clear();
            j.kv("op", J::str("clear"));
        } else {
            q.reset();
            sh.pend.clear();
            sh.now = 0;
            seg = 0;
            j.kv("op", J::str("reset"));
        }
        obs(j);
        if (sus)
            break;
    }
    return sus;
}

static std::vector<Op> parse(const std::string& l) {
    std::vector<Op> r;
    std::string s;
    for (char c : l)
        s += (c == '[' || c == ']' || c == ',') ? ' ' : c;
    std::stringstream ss(s);
    long long a, b;
    while (ss >> a >> b)
        r.push_back({(int)a, b});
    return r;
}

static const long long BASES[] = {0, 1, 17, 63, 255, 256, (1LL << 16) - 3, (1LL << 24) - 2, (1LL << 31) - 4, (1LL << 31) - 1, (1LL << 32) - 7,
                                  (1LL << 32) - 1, (1LL << 32), (1LL << 33) - 9, (1LL << 32) + (1LL << 31) - 5, 123456789012345LL};
static const long long SCALES[] = {1, 2, 3, 7, 64, 1000, 65536, (1 << 20) + 1, 1 << 24, 50000000, 400000000};

struct Stat {
    long long histories, ops, suspicious, emitted;
};

int main(int argc, char** argv) {
    Args A(argc, argv);
    FILE* out = fopen(A.s("--out", "/dev/stdout").c_str(), "w");
    uint64_t seed = A.i("--seed", 1);
    std::string mode = A.s("--mode", "random");
    long long emit_every = A.i("--emit-every", 1);
    bool only = A.i("--only", -1) >= 0;
    Stat* st = (Stat*)mmap(nullptr, sizeof(Stat), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto flush = [&](std::vector<std::string>& lines) {
        for (auto& l : lines)
            fprintf(out, "%s\n", l.c_str());
        st->emitted++;
    };
    auto crash = [&](long long id, const std::string& why) {
        st->suspicious++;
        fprintf(out, "%s\n", J().kv("kind", J::str("begin")).n("id", id).kv("op", J::str("crash")).w("now", 0).kv("why", J::str(why)).done().c_str());
    };
    if (mode == "replay") {
        std::ifstream in(A.s("--hist", ""));
        std::vector<std::string> hs;
        std::string l;
        while (std::getline(in, l))
            if (!l.empty())
                hs.push_back(l);
        const long long NB = sizeof(BASES) / 8, NS = sizeof(SCALES) / 8;
        long long total = (long long)hs.size() * NB * NS;
        // one unit = a block of histories x bases x scales; ids are global so that one can be repeated
        const long long BL = only ? 1 : 20000;
        run_units(only ? A.i("--only", 0) : 0, only ? A.i("--only", 0) + 1 : (total + BL - 1) / BL, (int)A.i("--limit", 60), out, [&](long long u) {
            for (long long id = u * BL; id < std::min(total, (u + 1) * BL); id++) {
                long long h = id / (NB * NS), b = id / NS % NB, s = id % NS;
                std::vector<std::string> lines;
                auto ops = parse(hs[h]);
                bool sus = run_history<false>(ops, BASES[b], SCALES[s], lines, id, true);
                st->histories++;
                st->ops += ops.size();
                if (sus)
                    st->suspicious++;
                if (only || id % emit_every == 0 || (sus && st->suspicious < 50))
                    flush(lines);
            }
        }, crash);
    } else if (mode == "random") {
        run_units(A, "--histories", 100, out, [&](long long id) {
            Rng r(seed * 7919 + id);
            std::vector<Op> ops;
            int n = r.range(5, (int)A.i("--len", 120));
            long long base = r.chance(1, 2) ? BASES[r.below(16)] : (long long)(r.next() >> (1 + r.below(40))) & ((1LL << 52) - 1);
            int maxbits = r.range(0, 30);
            int penq = r.range(30, 70);
            bool val = r.chance(1, 3);
            for (int i = 0; i < n; i++) {
                int x = r.range(0, 99);
                if (x < penq) {
                    long long d = r.chance(1, 5) ? 0 : (long long)r.below(1ull << r.range(0, maxbits));
                    if (r.chance(1, 12))
                        d = (1LL << r.range(0, 30)) + r.range(-1, 1);
                    if (r.chance(1, 60))
                        d = (1LL << 31) - 1 - (long long)r.below(3);
                    ops.push_back({1, std::max(0LL, d)});
                } else if (x < 97)
                    ops.push_back({2, 0});
                else if (x == 97)
                    ops.push_back({3, 0});
                else if (x == 98)
                    ops.push_back({r.chance(1, 3) ? 4 : 2, 0});
                else
                    ops.push_back({val ? 5 : 2, 1 + (long long)r.below(1ull << r.range(0, 30))});
            }
            for (int i = 0; i < n; i++)
                ops.push_back({2, 0});  // drain
            std::vector<std::string> lines;
            bool sus = val ? run_history<true>(ops, base, 1, lines, id, false) : run_history<false>(ops, base, 1, lines, id, false);
            st->histories++;
            st->ops += ops.size();
            if (sus)
                st->suspicious++;
            if (only || id % emit_every == 0 || (sus && st->suspicious < 50))
                flush(lines);
        }, crash);
    } else if (mode == "bulk") {
        // Very many events at once, in lots of one time each.
        run_units(A, "--histories", 100, out, [&](long long id) {
            Rng r(seed * 15485863 + id);
            std::vector<std::string> lines;
            long long base = r.chance(1, 2) ? BASES[r.below(16)] : (long long)(r.next() >> (1 + r.below(40))) & ((1LL << 52) - 1);
            radix_heap_queue<false> q;
            q.cur_time = base;
            struct Lot {
                long long t, first, count, left;
            };
            std::vector<Lot> lots;
            std::vector<int> lot_of{0};
            std::vector<char> out_already{0};
            std::map<long long, long long> left_at;  // time -> events
            bool sus = false, huge = r.chance(1, 3);
            int maxbits = r.range(0, 31), phases = r.range(1, 6);
            auto obs = [&](J j) {
                long long n = 0;
                for (auto& x : left_at)
                    n += x.second;
                if ((long long)q.size() != n || q.empty() != (n == 0))
                    sus = true;
                lines.push_back(j.w("now", q.cur_time).n("size", (long long)q.size()).done());
            };
            lines.push_back(J().kv("kind", J::str("begin")).n("id", id).kv("op", J::str("begin")).w("now", base).done());
            for (int ph = 0; ph < phases && !sus; ph++) {
                int k = r.range(1, 12);
                for (int l = 0; l < k; l++) {
                    long long c = huge && r.chance(1, 4) ? r.range(65000, 70000) : r.chance(1, 3) ? r.range(240, 700) : r.range(1, 60);
                    long long t = q.cur_time + (r.chance(1, 5) ? 0 : std::min((long long)r.below(1ull << maxbits), (1LL << 31) - 1));
                    lots.push_back({t, (long long)lot_of.size(), c, c});
                    left_at[t] += c;
                    for (long long i = 0; i < c; i++) {
                        q.enqueue(FloodCheckEvent(fake((long long)lot_of.size()), cyclic_time_int{t}));
                        lot_of.push_back((int)lots.size());
                        out_already.push_back(0);
                        st->ops++;
                    }
                    obs(J().kv("kind", J::str("step")).kv("op", J::str("enqs")).n("e", (long long)lots.size()).n("c", c).w("t", t));
                }
                bool drain = ph + 1 == phases;
                long long times = drain ? 1000000 : r.range(1, 8), some = drain || r.chance(1, 2) ? 1LL << 40 : r.range(1, 100000);
                while (times > 0 && !sus) {
                    // the events that come out at one time
                    std::map<int, long long> got;
                    long long now = 0, wrong = 0;
                    bool none = left_at.empty();
                    if (none) {
                        auto e = q.dequeue();
                        if (e.tentative_event_type == NO_FLOOD_CHECK_EVENT) {
                            obs(J().kv("kind", J::str("step")).kv("op", J::str("none")));
                            break;
                        }
                        wrong++;
                    }
                    long long expect = none ? 0 : std::min(left_at.begin()->second, some), n = 0;
                    for (; n < expect && !wrong; n++) {
                        auto e = q.dequeue();
                        st->ops++;
                        long long eid = e.tentative_event_type == LOOK_AT_NODE ? unfake(e) : 0;
                        if (n == 0)
                            now = q.cur_time;
                        if (eid < 1 || eid >= (long long)lot_of.size() || out_already[eid] || q.cur_time != now || (uint32_t)now != e.time.value) {
                            wrong++;
                            break;
                        }
                        out_already[eid] = 1;
                        got[lot_of[eid]]++;
                    }
                    some -= n;
                    std::vector<std::string> g;
                    for (auto& x : got) {
                        g.push_back("[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]");
                        auto& lot = lots[x.first - 1];
                        lot.left -= x.second;
                        if (lot.t != now)
                            wrong++;
                    }
                    if (!none && (left_at.begin()->first != now || (left_at.begin()->second -= n) == 0))
                        left_at.erase(left_at.begin());
                    if (wrong)
                        sus = true;
                    obs(J().kv("kind", J::str("step")).kv("op", J::str("deqs")).kv("l", J::raw(g)).n("wrong", wrong).w("t", now));
                    times--;
                    if (some <= 0)
                        break;
                }
            }
            st->histories++;
            if (sus)
                st->suspicious++;
            if (only || id % emit_every == 0 || (sus && st->suspicious < 50))
                flush(lines);
        }, crash);
    } else if (mode == "tracker") {
        // Several objects with a tracker each share one queue.
        run_units(A, "--histories", 100, out, [&](long long id) {
            Rng r(seed * 104729 + id);
            std::vector<std::string> lines;
            int objs = (int)A.i("--objs", 0) ? r.range(5, (int)A.i("--objs", 0)) : r.range(1, 4);
            int n = r.range(4, (int)A.i("--len", 60));
            long long base = r.chance(1, 2) ? BASES[r.below(16)] : (long long)(r.next() >> (1 + r.below(40))) & ((1LL << 52) - 1);
            radix_heap_queue<false> q;
            q.cur_time = base;
            std::vector<QueuedEventTracker> tr(objs);
            std::vector<long long> want(objs, -1);
            bool sus = false;
            int maxbits = r.chance(1, 2) ? r.range(0, 3) : r.range(0, 28);
            int ppop = r.range(15, 60);
            lines.push_back(J().kv("kind", J::str("begin")).n("id", id).kv("op", J::str("begin")).n("objs", objs).w("now", base).done());
            auto pop = [&]() {
                auto e = q.dequeue();
                J j;
                j.kv("kind", J::str("step"));
                if (e.tentative_event_type == NO_FLOOD_CHECK_EVENT) {
                    for (auto w : want)
                        if (w != -1)
                            sus = true;
                    lines.push_back(j.kv("op", J::str("none")).w("now", q.cur_time).done());
                    return false;
                }
                long long o = unfake(e);
                bool keep = tr[o].dequeue_decision(e, q);
                if (keep) {
                    if (want[o] != q.cur_time)
                        sus = true;
                    want[o] = -1;
                }
                for (auto w : want)
                    if (w != -1 && w < q.cur_time)
                        sus = true;
                lines.push_back(j.kv("op", J::str("pop")).n("o", o).w("tv", (long long)(uint32_t)e.time.value).n("keep", keep).w("now", q.cur_time).done());
                return true;
            };
            for (int i = 0; i < n && !sus; i++) {
                progress()->sub++;
                int x = r.range(0, 99);
                int o = r.range(0, objs - 1);
                if (x < ppop) {
                    pop();
                } else if (x < 90) {
                    long long t = q.cur_time + (r.chance(1, 5) ? 0 : (long long)r.below(1ull << r.range(0, maxbits)));
                    if (r.chance(1, 4) && want[r.below(objs)] >= q.cur_time) {  // near another wish
                        long long w = want[r.below(objs)];
                        if (w >= q.cur_time)
                            t = std::max((long long)q.cur_time, w + r.range(-2, 2));
                    }
                    tr[o].set_desired_event(FloodCheckEvent(fake(o), cyclic_time_int{t}), q);
                    want[o] = t;
                    lines.push_back(J().kv("kind", J::str("step")).kv("op", J::str("set")).n("o", o).w("t", t).done());
                } else {
                    tr[o].set_no_desired_event();
                    want[o] = -1;
                    lines.push_back(J().kv("kind", J::str("step")).kv("op", J::str("unset")).n("o", o).done());
                }
            }
            while (!sus && pop())
                ;
            st->histories++;
            st->ops += lines.size();
            if (sus)
                st->suspicious++;
            if (only || id % emit_every == 0 || (sus && st->suspicious < 50))
                flush(lines);
        }, crash);
    } else if (mode == "trackreplay") {
        // histories from the specification: [1,o,d] set, [2,o] cancel, [3,k] pop k times; scaled times
        std::ifstream in(A.s("--hist", ""));
        std::vector<std::string> hs;
        std::string l;
        while (std::getline(in, l))
            if (!l.empty())
                hs.push_back(l);
        static const long long B2[] = {0, (1LL << 32) - 3, (1LL << 31) - 2}, S2[] = {1, 13, 1 << 26};
        long long total = (long long)hs.size() * 9;
        const long long BL = only ? 1 : 20000;
        run_units(only ? A.i("--only", 0) : 0, only ? A.i("--only", 0) + 1 : (total + BL - 1) / BL, (int)A.i("--limit", 60), out, [&](long long u) {
            for (long long id = u * BL; id < std::min(total, (u + 1) * BL); id++) {
                auto ops = parse(hs[id / 9]);
                long long base = B2[id / 3 % 3], scale = S2[id % 3];
                std::vector<std::string> lines;
                radix_heap_queue<false> q;
                q.cur_time = base;
                QueuedEventTracker tr[3];
                long long want[3] = {-1, -1, -1};
                bool sus = false;
                lines.push_back(J().kv("kind", J::str("begin")).n("id", id).kv("op", J::str("begin")).n("objs", 3).w("now", base).done());
                auto pop = [&]() {
                    auto e = q.dequeue();
                    J j;
                    j.kv("kind", J::str("step"));
                    if (e.tentative_event_type == NO_FLOOD_CHECK_EVENT) {
                        for (auto w : want)
                            if (w != -1)
                                sus = true;
                        lines.push_back(j.kv("op", J::str("none")).w("now", q.cur_time).done());
                        return false;
                    }
                    long long o = unfake(e);
                    bool keep = tr[o].dequeue_decision(e, q);
                    if (keep) {
                        if (want[o] != q.cur_time)
                            sus = true;
                        want[o] = -1;
                    }
                    for (auto w : want)
                        if (w != -1 && w < q.cur_time)
                            sus = true;
                    lines.push_back(j.kv("op", J::str("pop")).n("o", o).w("tv", (long long)(uint32_t)e.time.value).n("keep", keep).w("now", q.cur_time).done());
                    return true;
                };
                for (auto& op : ops) {
                    int kind = op.op / 10, o = op.op % 10;
                    if (kind == 1) {
                        long long t = q.cur_time + op.d * scale;
                        tr[o].set_desired_event(FloodCheckEvent(fake(o), cyclic_time_int{t}), q);
                        want[o] = t;
                        lines.push_back(J().kv("kind", J::str("step")).kv("op", J::str("set")).n("o", o).w("t", t).done());
                    } else if (kind == 2) {
                        tr[o].set_no_desired_event();
                        want[o] = -1;
                        lines.push_back(J().kv("kind", J::str("step")).kv("op", J::str("unset")).n("o", o).done());
                    } else
                        pop();
                }
                while (!sus && pop())
                    ;
                st->histories++;
                st->ops += lines.size();
                if (sus)
                    st->suspicious++;
                if (only || id % emit_every == 0 || (sus && st->suspicious < 50))
                    flush(lines);
            }
        }, crash);
    }
    fclose(out);
    fprintf(stderr, "STAT {\"histories\":%lld,\"operations\":%lld,\"suspicious\":%lld,\"emitted\":%lld}\n", st->histories, st->ops, st->suspicious, st->emitted);
    return 0;
}
