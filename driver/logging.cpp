// Messages to the log, with a clock of our own; the lines that came out (P32).
#include "common.h"
#include <atomic>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <time.h>
#include "ska-sdp-func/utility/sdp_logging.h"

// ------------------------------------------------ the clock: it moves on at every reading
static std::atomic<i64> fake_ns(-1);
static std::atomic<i64> fake_step(0);
static i64 read_clock(clockid_t id)
{
    if (fake_ns.load() < 0)
    {
        struct timespec t;
        syscall(SYS_clock_gettime, id, &t);
        return (i64) t.tv_sec * 1000000000 + t.tv_nsec;
    }
    return fake_ns.fetch_add(fake_step.load());
}
extern "C" int clock_gettime(clockid_t id, struct timespec* t) __THROW
{
    i64 c = read_clock(id);
    t->tv_sec = c / 1000000000; t->tv_nsec = c % 1000000000;
    return 0;
}
extern "C" int gettimeofday(struct timeval* t, void*) __THROW
{
    i64 c = read_clock(CLOCK_REALTIME);
    t->tv_sec = c / 1000000000; t->tv_usec = (c % 1000000000) / 1000;
    return 0;
}
extern "C" time_t time(time_t* t) __THROW
{
    time_t r = read_clock(CLOCK_REALTIME) / 1000000000;
    if (t) *t = r;
    return r;
}
extern "C" int timespec_get(struct timespec* t, int) __THROW
{
    clock_gettime(CLOCK_REALTIME, t);
    return TIME_UTC;
}
static std::vector<i64> instant(i64 ns) { i64 ms = ns / 1000000; return {ms / 86400000, ms % 86400000}; }

// ------------------------------------------------ messages
struct Msg { int t, n, lvl, macro, shape, line; i64 from, to; };

// What message n of thread t says; its place is in every line, so that a line tells whose it is.
static std::string text_of(const Msg& m)
{
    char b[6000];
    switch (m.shape)
    {
    case 0: snprintf(b, sizeof b, "T%d.%d: plain 100%% text", m.t, m.n); return b;
    case 1: snprintf(b, sizeof b, "T%d.%d: %s|%5.2f||%c", m.t, m.n, "a|b", m.n / 3.0, 'x'); return b;
    case 2: snprintf(b, sizeof b, "T%d.%d: %s", m.t, m.n, std::string(1500, 'q').c_str()); return b;
    case 3: snprintf(b, sizeof b, "T%d.%d: %s", m.t, m.n, std::string(5000, 'z').c_str()); return b;
    default: snprintf(b, sizeof b, "T%d.%d: %lld and %d", m.t, m.n, 1234567890123LL * m.n, -m.n); return b;
    }
}
#define SEND(M, ...) do { if (m.macro) { m.line = __LINE__; switch (m.lvl) { \
    case 1: SDP_LOG_DEBUG(__VA_ARGS__); break; case 2: SDP_LOG_INFO(__VA_ARGS__); break; \
    case 3: SDP_LOG_WARNING(__VA_ARGS__); break; case 4: SDP_LOG_ERROR(__VA_ARGS__); break; \
    default: SDP_LOG_CRITICAL(__VA_ARGS__); } } \
    else { m.line = 1000 + m.n; sdp_log_message((sdp_LogLevel) m.lvl, file, "function", "some/file.c", m.line, __VA_ARGS__); } } while (0)

static void send(Msg& m, FILE* file)
{
    m.from = fake_ns.load();
    switch (m.shape)
    {
    case 0: SEND(m, "T%d.%d: plain 100%% text", m.t, m.n); break;
    case 1: SEND(m, "T%d.%d: %s|%5.2f||%c", m.t, m.n, "a|b", m.n / 3.0, 'x'); break;
    case 2: SEND(m, "T%d.%d: %s", m.t, m.n, std::string(1500, 'q').c_str()); break;
    case 3: SEND(m, "T%d.%d: %s", m.t, m.n, std::string(5000, 'z').c_str()); break;
    default: SEND(m, "T%d.%d: %lld and %d", m.t, m.n, 1234567890123LL * m.n, -m.n);
    }
    m.to = fake_ns.load();
}

static std::vector<std::string> lines_of(int fd)
{
    std::string s;
    lseek(fd, 0, SEEK_SET);
    char b[65536];
    for (ssize_t k; (k = read(fd, b, sizeof b)) > 0;) s.append(b, k);
    std::vector<std::string> r;
    size_t p = 0;
    for (size_t q; (q = s.find('\n', p)) != std::string::npos; p = q + 1) r.push_back(s.substr(p, q - p));
    if (p < s.size()) r.push_back(s.substr(p));
    return r;
}

static int scratch()
{
    char name[] = "/tmp/vlogXXXXXX";
    int fd = mkstemp(name);
    if (fd < 0) _exit(97);
    unlink(name);
    return fd;
}

static void run(Rng& r, Out& out)
{
    const char* envs[] = {"none", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "debug", "info", "warning",
                          "error", "critical"};
    const char* env = envs[r.chance(1, 4) ? 0 : r.in(0, 10)];
    if (strcmp(env, "none")) setenv("SKA_SDP_FUNC_LOG_LEVEL", env, 1);
    else unsetenv("SKA_SDP_FUNC_LOG_LEVEL");
    setenv("TZ", r.pick<const char*>({"UTC", "America/New_York", "XYZ-5:30", "ABC11"}), 1);
    tzset();
    // The clock: often close to the end of a second, a day, a month or a year.
    const i64 days[] = {0, 59, 364, 10956, 10957, 11015, 11016, 18320, 18321, 19722, 20512, 24855, 47540, 47541};
    i64 day = r.chance(1, 3) ? r.in(1, 40000) : days[r.in(0, 13)];
    i64 ms = r.chance(1, 2) ? 86399000 : r.in(0, 86399) * 1000;
    fake_step = r.pick<i64>({1000, 50000, 300000, 1000000, 7000000, 400000000});
    i64 start = (day * 86400000 + ms) * 1000000;
    start += r.chance(2, 3) ? 1000000000 - fake_step * r.in(1, 12) : r.in(0, 999999) * 1000;
    if (start < 0) start = 0;

    const int nt = r.chance(1, 3) ? (int) r.in(2, 4) : 1, per = nt > 1 ? 40 : (int) r.in(1, 12);
    int fd[3] = {scratch(), scratch(), scratch()};
    int old[3] = {-1, dup(1), dup(2)};
    fflush(stdout);
    dup2(fd[1], 1); dup2(fd[2], 2);
    setvbuf(stdout, 0, _IOLBF, 0);
    FILE* file = fdopen(dup(fd[0]), "w");
    const int buf = (int) r.in(0, 2);
    setvbuf(file, 0, buf == 0 ? _IONBF : buf == 1 ? _IOLBF : _IOFBF, buf == 0 ? 0 : 4096);
    std::vector<std::vector<Msg> > all(nt);
    const int macros = (int) r.in(0, 2);
    for (int t = 0; t < nt; ++t)
        for (int n = 1; n <= per; ++n)
        {
            Msg m = {};
            m.t = t; m.n = n;
            m.macro = macros == 2 ? (int) r.in(0, 1) : macros;
            m.lvl = m.macro ? (int) r.in(1, 5) : (int) r.in(0, 6);
            m.shape = r.chance(1, 6) ? 3 : (int) r.pick({0, 1, 2, 4});
            all[t].push_back(m);
        }
    fake_ns = start;
    if (nt == 1) for (auto& m : all[0]) send(m, file);
    else
    {
        std::atomic<int> ready(0);
        std::vector<std::thread> th;
        for (int t = 0; t < nt; ++t)
            th.emplace_back([&, t]() { ++ready; while (ready < nt) {} for (auto& m : all[t]) send(m, file); });
        for (auto& x : th) x.join();
    }
    fake_ns = -1;
    fflush(stdout); fflush(stderr); fclose(file);
    dup2(old[1], 1); dup2(old[2], 2);

    out.put(J().t("e", "Begin").t("env", env));
    for (auto& a : all)
        for (auto& m : a)
            out.put(J().t("e", "Send").n("t", m.t).n("n", m.n).n("lvl", m.lvl).n("macro", m.macro)
                    .a("from", instant(m.from)).a("to", instant(m.to)));
    for (int q = 0; q < 3; ++q)
        for (auto& l : lines_of(fd[q]))
        {
            int t = -1, n = -1, at = 0, y = 0, mo = 0, d = 0, h = 0, mi = 0, s = 0, z = 0, e1 = 0;
            char name[16] = "";
            bool ok = sscanf(l.c_str(), "1|%4d-%2d-%2dT%2d:%2d:%2d.%3dZ|%15[A-Z]|%n", &y, &mo, &d, &h, &mi, &s, &z,
                    name, &e1) == 8 && e1 == 26 + (int) strlen(name) + 2;
            size_t p = ok ? l.find("|| T", e1) : std::string::npos;
            ok = ok && p != std::string::npos && sscanf(l.c_str() + p, "|| T%d.%d%n", &t, &n, &at) == 2 &&
                 t >= 0 && t < nt && n >= 1 && n <= per;
            if (ok)
            {
                const Msg& m = all[t][n - 1];
                std::string where = m.macro ? "|send|" : "|function|some/file.c#";
                std::string got = l.substr(e1);
                std::string tail = "#" + std::to_string(m.line) + "|| " + text_of(m);
                ok = got.compare(0, where.size(), where) == 0 && got.size() >= tail.size() &&
                     got.compare(got.size() - tail.size(), tail.size(), tail) == 0 &&
                     (m.macro ? got.find("logging.cpp#") != std::string::npos
                              : got == where + tail.substr(1));
            }
            if (!ok)
            {
                out.put(J().t("e", "Broken").n("q", q).n("len", (i64) l.size()));
                if (getenv("VDEBUG")) fprintf(stderr, "BROKEN %s\n", l.c_str());
                continue;
            }
            out.put(J().t("e", "Line").n("q", q).n("t", t).n("n", n).t("name", name)
                    .a("time", std::vector<i64>{y, mo, d, h, mi, s, z}));
        }
    out.put(J().t("e", "Done"));
}

int main(int argc, char** argv)
{
    return driver_main(argc, argv, {{"log", run, 1}});
}
