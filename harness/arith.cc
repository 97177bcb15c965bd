// Records results of the wrapped-time and radius arithmetic.
#include "common.h"
#include "pymatching/sparse_blossom/flooder_matcher_interop/varying.h"
#include "pymatching/sparse_blossom/ints.h"
#include "pymatching/sparse_blossom/tracker/cyclic.h"

using namespace pm;

template <class T>
static int cmp_bits(cyclic<T> a, cyclic<T> b) {
    return (a < b) | (a <= b) << 1 | (a > b) << 2 | (a >= b) << 3 | (a == b) << 4 | (a != b) << 5 | (a == b.value) << 6 | (a != b.value) << 7;
}

static FILE* out;
struct Stat {
    long long evals, records;
};
static Stat* st;

static void put(const std::string& s) {
    fprintf(out, "%s\n", s.c_str());
    st->records++;
}

template <class V, class T>
static void varying_record(const char* type, long long id, Rng& r, long long lim) {
    auto pick = [&]() {
        long long v = r.chance(1, 3) ? r.range(-20, 20) : (long long)(r.next() >> 2) % (1LL << r.range(1, 62)) % lim;
        return r.chance(1, 2) ? -v : v;
    };
    std::vector<std::string> rows;
    for (int i = 0; i < 40; i++) {
        long long base = pick();
        int g = r.range(-1, 1);
        long long t = pick(), t2 = pick(), off = pick();
        if (r.chance(1, 3))
            t2 = t;
        V v = V::from_base_and_growth((T)base, g);
        V b = g == 1 ? V::growing_value_at_time((T)base, (T)t) : g == -1 ? V::shrinking_value_at_time((T)base, (T)t) : V::frozen((T)base);
        V z = V::growing_varying_with_zero_distance_at_time((T)t);
        int kind = v.is_growing() | v.is_frozen() << 1 | v.is_shrinking() << 2;
        V grow = v.then_growing_at_time((T)t), shr = v.then_shrinking_at_time((T)t), fro = v.then_frozen_at_time((T)t);
        auto kinds = [](V x) { return x.is_growing() | x.is_frozen() << 1 | x.is_shrinking() << 2; };
        long long xi = 0, xs = 0;
        int xthrow = 0;
        try {
            xi = v.time_of_x_intercept();
        } catch (const std::invalid_argument&) {
            xthrow = 1;
        }
        xs = g == 1 ? (long long)v.time_of_x_intercept_for_growing() : g == -1 ? (long long)v.time_of_x_intercept_for_shrinking() : 0;
        long long dsame = g == 1 ? (long long)v.get_growing_distance_at_time((T)t) : g == -1 ? (long long)v.get_shrinking_distance_at_time((T)t) : (long long)v.get_distance_at_time((T)t);
        // collision of two lines (negated weights are added by callers)
        long long base2 = pick();
        int g2 = r.range(-1, 1);
        V o = V::from_base_and_growth((T)base2, g2);
        long long hit = 0, hitu = 0;
        int hashit = 0;
        if (g >= 0 && g2 >= 0 && g + g2 > 0 && (g + g2 == 1 || (base + base2) % 2 == 0)) {
            hashit = 1;
            hit = v.time_of_x_intercept_when_added_to(o);
            if (g + g2 == 1)
                hitu = v.time_of_x_intercept_when_added_to_giving_unit_slope(o);
        }
        V pl = v + (T)off, mi = v - (T)off, pe = v, me = v;
        pe += (T)off;
        me -= (T)off;
        auto W = [](long long x) { return J::wide(x); };
        rows.push_back(J().w("base", base).n("g", g).w("t", t).w("t2", t2).w("off", off).n("kind", kind).w("y", v.y_intercept())
            .w("at", v.get_distance_at_time((T)t)).w("at2", v.get_distance_at_time((T)t2)).w("same", dsame)
            .w("b_at", b.get_distance_at_time((T)t)).w("b_at2", b.get_distance_at_time((T)t2)).n("b_kind", kinds(b))
            .w("z_at", z.get_distance_at_time((T)t)).w("z_at2", z.get_distance_at_time((T)t2))
            .kv("then", J::raw({W(grow.get_distance_at_time((T)t)), W(grow.get_distance_at_time((T)t2)), W(fro.get_distance_at_time((T)t)), W(fro.get_distance_at_time((T)t2)),
                                W(shr.get_distance_at_time((T)t)), W(shr.get_distance_at_time((T)t2))}))
            .kv("thenk", J::arr(std::vector<int>{kinds(grow), kinds(fro), kinds(shr)}))
            .n("xthrow", xthrow).w("xi", xi).w("xs", xs)
            .n("g2", g2).w("base2", base2).n("coll", v.colliding_with(o)).n("hashit", hashit).w("hit", hit).w("hitu", hitu)
            .w("pl", pl.get_distance_at_time((T)t)).w("mi", mi.get_distance_at_time((T)t)).w("pe", pe.get_distance_at_time((T)t)).w("me", me.get_distance_at_time((T)t))
            .kv("offk", J::arr(std::vector<int>{kinds(pl), kinds(mi), kinds(pe), kinds(me)}))
            .n("eq", (v == o) | (v != o) << 1)
            .done());
        st->evals += 30;
    }
    put(J().kv("kind", J::str("varying")).n("id", id).kv("type", J::str(type)).kv("rows", J::raw(rows)).done());
}

int main(int argc, char** argv) {
    Args A(argc, argv);
    out = fopen(A.s("--out", "/dev/stdout").c_str(), "w");
    uint64_t seed = A.i("--seed", 1);
    st = (Stat*)mmap(nullptr, sizeof(Stat), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    long long lo = A.i("--lo", 0), extra = A.i("--extra", 100);
    long long hi = A.i("--hi", 256);
    long long only = A.i("--only", -1);
    long long n8 = hi - lo;
    // ids 0..255: all comparisons and widenings of an 8-bit cycle with first operand id.
    auto unit = [&](long long u) {
        if (u < 256) {
            long long a = u;
            std::vector<int> cmp, add, sub;
            for (int b = 0; b < 256; b++) {
                cyclic<uint8_t> x{(uint8_t)a}, y{(uint8_t)b};
                cmp.push_back(cmp_bits(x, y));
                add.push_back((x + y).value);
                sub.push_back((x - y).value);
            }
            std::vector<int> wid, widu;
            for (int ref = -400; ref <= 700; ref++) {
                wid.push_back(cyclic<uint8_t>{(uint8_t)a}.widen_from_nearby_reference((int)ref));
                widu.push_back((int)cyclic<uint8_t>{(uint8_t)a}.widen_from_nearby_reference((uint64_t)(ref + 100000)));
            }
            cyclic<uint8_t> c{(uint8_t)a};
            std::vector<int> inc;
            inc.push_back((++c).value);
            inc.push_back(c.value);
            inc.push_back((c++).value);
            inc.push_back(c.value);
            inc.push_back((--c).value);
            inc.push_back((c--).value);
            inc.push_back(c.value);
            c += 300;
            inc.push_back(c.value);
            c -= 301;
            inc.push_back(c.value);
            st->evals += 256 * 10 + 2202;
            put(J().kv("kind", J::str("cyc8")).n("id", u).n("a", a).kv("cmp", J::arr(cmp)).kv("add", J::arr(add)).kv("sub", J::arr(sub)).kv("wid", J::arr(wid)).kv("widu", J::arr(widu)).kv("inc", J::arr(inc)).done());
            return;
        }
        Rng r(seed * 31337 + u);
        if (u % 3 == 0) {
            // 32-bit times around a 64-bit reference
            std::vector<std::string> rows;
            for (int i = 0; i < 60; i++) {
                long long ref = (long long)(r.next() >> (1 + r.below(40))) & ((1LL << 54) - 1);
                if (r.chance(1, 3))
                    ref = (1LL << r.range(28, 40)) + r.range(-5, 5);
                if (r.chance(1, 5))
                    ref = -ref;
                long long d = (long long)r.below(1ull << r.range(0, 31));
                if (r.chance(1, 6))
                    d = (1LL << 31) - 1 - (long long)r.below(4);
                if (d >= (1LL << 31))
                    d = (1LL << 31) - 1;
                if (r.chance(1, 2))
                    d = -d;
                long long t = ref + d;
                cyclic_time_int ct{t}, cr{ref};
                long long w = ct.widen_from_nearby_reference((cumulative_time_int)ref);
                rows.push_back(J().w("ref", ref).w("t", t).w("cv", (long long)(uint32_t)ct.value).w("w", w).n("cmp", cmp_bits(ct, cr)).done());
                st->evals += 9;
            }
            put(J().kv("kind", J::str("cyc32")).n("id", u).kv("rows", J::raw(rows)).done());
        } else if (u % 3 == 1)
            varying_record<Varying32, int32_t>("v32", u, r, 1LL << 26);
        else
            varying_record<VaryingCT, cumulative_time_int>("v64", u, r, 1LL << 52);
    };
    auto crash = [&](long long id, const std::string& why) { put(J().kv("kind", J::str("crash")).n("id", id).kv("why", J::str(why)).done()); };
    if (only >= 0)
        run_units(only, only + 1, 20, out, unit, crash);
    else {
        run_units(lo, hi, 20, out, unit, crash);
        run_units(256 + seed % 1000 * 100000, 256 + seed % 1000 * 100000 + extra, 20, out, unit, crash);
    }
    (void)n8;
    fclose(out);
    fprintf(stderr, "STAT {\"evaluations\":%lld,\"records\":%lld}\n", st->evals, st->records);
    return 0;
}
