// Shared helpers of the conformance harnesses: deterministic random numbers, JSON lines, and
// execution of code under test in a child process so that a crash or a hang becomes a record of the
// trace (which the specification then rejects) instead of the end of the check.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class V>
    void shuffle(V& v) {
        for (size_t i = v.size(); i > 1; i--)
            std::swap(v[i - 1], v[below(i)]);
    }
};

struct J {
    std::string s;
    bool first = true;
    static std::string num(long long v) { return std::to_string(v); }
    // TLC's integers have 32 bits: anything larger is reported as the sentinel `2147483647`.
    static std::string num32(long long v) {
        if (v > 2147483646LL || v < -2147483646LL)
            v = 2147483647LL;
        return std::to_string(v);
    }
    template <class V>
    static std::string arr(const V& v) {
        std::string r = "[";
        bool f = true;
        for (auto& x : v) {
            if (!f)
                r += ",";
            f = false;
            r += num32((long long)x);
        }
        return r + "]";
    }
    static std::string raw(const std::vector<std::string>& v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i++) {
            if (i)
                r += ",";
            r += v[i];
        }
        return r + "]";
    }
    // Exact 64-bit integers as <<hi, lo>> in base 2^24 (see Wide.tla).
    static std::string wide(long long v) {
        long long hi = v >> 24, lo = v & 0xFFFFFF;
        return "[" + num32(hi) + "," + std::to_string(lo) + "]";
    }
    J& w(const std::string& k, long long v) { return kv(k, wide(v)); }
    static std::string str(const std::string& v) { return "\"" + v + "\""; }
    J& kv(const std::string& k, const std::string& rawval) {
        s += (first ? "" : ",");
        first = false;
        s += "\"" + k + "\":" + rawval;
        return *this;
    }
    J& n(const std::string& k, long long v) { return kv(k, num32(v)); }
    std::string done() const { return "{" + s + "}"; }
};

struct Args {
    std::map<std::string, std::string> m;
    Args(int argc, char** argv) {
        for (int i = 1; i + 1 < argc; i += 2)
            m[argv[i]] = argv[i + 1];
    }
    long long i(const std::string& k, long long d) const {
        auto it = m.find(k);
        return it == m.end() ? d : atoll(it->second.c_str());
    }
    std::string s(const std::string& k, const std::string& d) const {
        auto it = m.find(k);
        return it == m.end() ? d : it->second;
    }
};

// A shared page in which the child notes what it is about to do.
struct Progress {
    volatile long long unit;
    volatile long long sub;
    char note[4000];
};
inline Progress* progress() {
    static Progress* p = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return p;
}
inline void note(const std::string& s) {
    auto p = progress();
    size_t n = std::min(s.size(), sizeof(p->note) - 1);
    memcpy(p->note, s.data(), n);
    p->note[n] = 0;
}

// Runs `unit(k)` for k in [begin, count) in child processes. A unit that dies (signal, unexpected
// exception) or exceeds `limit_s` is reported through `on_crash(k, why)` in the parent, and the run
// goes on with the next unit. Units print their own records with fprintf(out).
inline void run_units(
    long long begin,
    long long count,
    int limit_s,
    FILE* out,
    const std::function<void(long long)>& unit,
    const std::function<void(long long, const std::string&)>& on_crash,
    int max_crashes = 20) {
    long long k = begin;
    int crashes = 0;
    while (k < count && crashes < max_crashes) {
        fflush(out);
        progress()->unit = k;
        progress()->sub = 0;
        progress()->note[0] = 0;
        pid_t pid = fork();
        if (pid < 0) {
            perror("fork");
            exit(3);
        }
        if (pid == 0) {
            signal(SIGALRM, SIG_DFL);
            for (long long j = k; j < count; j++) {
                progress()->unit = j;
                progress()->sub = 0;
                alarm(limit_s);
                try {
                    unit(j);
                } catch (const std::exception& e) {
                    note(std::string("escaped exception: ") + e.what() + " | " + progress()->note);
                    fflush(out);
                    _exit(77);
                }
                alarm(0);
                fflush(out);
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            return;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
            exit(3);  // harness error
        std::string why;
        if (WIFSIGNALED(st))
            why = WTERMSIG(st) == SIGALRM ? "hang" : ("signal " + std::to_string(WTERMSIG(st)));
        else
            why = "exit " + std::to_string(WEXITSTATUS(st));
        crashes += why == "hang" ? max_crashes / 2 : 1;
        on_crash(progress()->unit, why);
        fflush(out);
        k = progress()->unit + 1;
    }
}
// The usual command line: --units N, or --only K to repeat one unit.
inline void run_units(
    const Args& A,
    const char* count_key,
    long long dflt,
    FILE* out,
    const std::function<void(long long)>& unit,
    const std::function<void(long long, const std::string&)>& on_crash) {
    long long only = A.i("--only", -1);
    long long n = A.i(count_key, dflt);
    run_units(only >= 0 ? only : 0, only >= 0 ? only + 1 : n, (int)A.i("--limit", 60), out, unit, on_crash);
}
#endif
