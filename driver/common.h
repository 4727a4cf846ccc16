// Common support for the conformance drivers: each case runs in a forked child,
// so that a crash (or an AddressSanitizer abort) of the code under test becomes
// an event of the recorded trace instead of the end of the run.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "ska-sdp-func/utility/sdp_mem.h"
#include "ska-sdp-func/utility/sdp_errors.h"

typedef int64_t i64;
typedef std::complex<double> cd;
typedef std::complex<float> cf;

// ---------------------------------------------------------------- RNG
struct Rng
{
    uint64_t s;
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // Inclusive range.
    i64 in(i64 lo, i64 hi) { return lo + (i64)(next() % (uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return in(1, den) <= num; }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    template<typename T> T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + in(0, (i64)l.size() - 1));
    }
};

// ---------------------------------------------------------------- numbers
static const i64 Q_NAN = 2000000001, Q_INEXACT = 2000000003, Q_BIG = 2000000000;
static inline i64 sat(i64 v) { return v > Q_BIG ? Q_BIG : (v < -Q_BIG ? -Q_BIG : v); }
// Rounded to the nearest multiple of 1/scale.
static inline i64 qr(double x, double scale)
{
    if (std::isnan(x)) return Q_NAN;
    double y = x * scale;
    if (y > 2e9) return Q_BIG;
    if (y < -2e9) return -Q_BIG;
    return llround(y);
}
// As qr, but x*scale must be an integer within tol.
static inline i64 qx(double x, double scale = 1.0, double tol = 1e-3)
{
    i64 r = qr(x, scale);
    if (std::llabs(r) >= Q_BIG) return r;
    if (std::fabs(x * scale - (double)r) > tol) return Q_INEXACT;
    return r;
}

// ---------------------------------------------------------------- JSON
struct J
{
    std::string s;
    bool first = true;
    J() { s = "{"; }
    J& key(const char* k)
    {
        if (!first) s += ",";
        first = false;
        s += "\""; s += k; s += "\":";
        return *this;
    }
    J& n(const char* k, i64 v) { key(k); s += std::to_string(sat1(v)); return *this; }
    J& t(const char* k, const std::string& v)
    {
        key(k); s += "\"" + v + "\""; return *this;
    }
    J& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
    static i64 sat1(i64 v)
    {
        if (v > Q_INEXACT) return Q_BIG;
        if (v < -Q_INEXACT) return -Q_BIG;
        return v;
    }
    static std::string arr(const std::vector<i64>& v)
    {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i)
        {
            if (i) r += ",";
            r += std::to_string(sat1(v[i]));
        }
        return r + "]";
    }
    static std::string arr(const std::vector<int>& v)
    {
        return arr(std::vector<i64>(v.begin(), v.end()));
    }
    static std::string list(const std::vector<std::string>& v)
    {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += v[i]; }
        return r + "]";
    }
    J& a(const char* k, const std::vector<i64>& v) { return raw(k, arr(v)); }
    J& a(const char* k, const std::vector<int>& v) { return raw(k, arr(v)); }
    J& aa(const char* k, const std::vector<std::vector<i64> >& v)
    {
        std::vector<std::string> l;
        for (auto& x : v) l.push_back(arr(x));
        return raw(k, list(l));
    }
    std::string str() const { return s + "}"; }
};

// ---------------------------------------------------------------- cases
struct Out
{
    int fd, idx;
    void put(J j)
    {
        j.n("c", idx);
        std::string l = j.str() + "\n";
        const char* p = l.c_str();
        size_t n = l.size();
        while (n > 0)
        {
            ssize_t w = write(fd, p, n);
            if (w <= 0) _exit(99);
            p += w; n -= (size_t)w;
        }
    }
};

// Tags a crash of this case as a candidate recorded finding.
static char* crash_key = 0;
static inline void set_key(const char* k) { if (crash_key) strncpy(crash_key, k, 60); }

typedef void (*CaseFn)(Rng&, Out&);
struct CaseKind { const char* name; CaseFn fn; int weight; };

// argv: out seed ncases shard nshards [only]
static inline int driver_main(int argc, char** argv,
        const std::vector<CaseKind>& kinds, int timeout_s = 60)
{
    if (argc < 6) { fprintf(stderr, "usage: out seed n shard nshards [only]\n"); return 2; }
    const char* path = argv[1];
    const uint64_t seed = strtoull(argv[2], 0, 10);
    const int n = atoi(argv[3]), shard = atoi(argv[4]), nshards = atoi(argv[5]);
    const int only = argc > 6 ? atoi(argv[6]) : -1;
    int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    if (fd < 0) { perror("open"); return 2; }
    std::vector<int> wheel;
    for (size_t k = 0; k < kinds.size(); ++k)
        for (int w = 0; w < kinds[k].weight; ++w) wheel.push_back((int)k);
    crash_key = (char*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int devnull = open("/dev/null", O_WRONLY);
    int late = 0;           // cases that did not end: three say enough
    for (int i = 0; i < n && late < 3; ++i)
    {
        if (only >= 0 ? i != only : (int)((((uint64_t)i * 2654435761ULL) >> 16) % (uint64_t)nshards) != shard) continue;
        const CaseKind& k = kinds[wheel[i % wheel.size()]];
        crash_key[0] = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            dup2(devnull, 1);
            alarm(timeout_s);
            Rng r;
            r.s = seed * 0x100000001B3ULL + (uint64_t)i * 0x9E3779B97F4A7C15ULL;
            r.next();
            Out o; o.fd = fd; o.idx = i;
            k.fn(r, o);
            _exit(0);
        }
        int st = 0;
        if (pid < 0) { perror("fork"); return 2; }
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { return 3; }
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++late;
            Out o; o.fd = fd; o.idx = i;
            J j;
            if (crash_key[0]) j.t("key", crash_key);
            o.put(j.t("e", "Crash").t("kind", k.name)
                    .n("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0)
                    .n("rc", WIFEXITED(st) ? WEXITSTATUS(st) : 0));
        }
    }
    return 0;
}

#endif
