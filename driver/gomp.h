// A small stand-in for the OpenMP runtime, made of plain threads and locks, so that
// ThreadSanitizer sees how the library's parallel regions are ordered. Linked into the
// driver, it takes the place of libgomp for the library under test.
#ifndef VERIF_GOMP_H
#define VERIF_GOMP_H
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

struct Team
{
    int size;
    std::mutex m;
    std::condition_variable cv;
    int arrived = 0;
    long gen = 0;
    struct Loop { bool set = false; long next = 0, end = 0, step = 1, chunk = 1; bool up = true; int done = 0; };
    std::map<long, Loop> loops;     // The k-th work-sharing construct of the region.
    explicit Team(int n) : size(n) {}
    void barrier()
    {
        std::unique_lock<std::mutex> g(m);
        const long k = gen;
        if (++arrived == size) { arrived = 0; ++gen; cv.notify_all(); return; }
        cv.wait(g, [&]() { return gen != k; });
    }
};
static Team* const NO_TEAM = 0;
static thread_local Team* gomp_team = NO_TEAM;
static thread_local int gomp_id = 0, gomp_want = 1;
static thread_local long gomp_construct = 0;

static void gomp_enter(Team* t, int id, void (*fn)(void*), void* data, int want)
{
    Team* const old = gomp_team;
    const int old_id = gomp_id;
    const long old_c = gomp_construct;
    gomp_team = t; gomp_id = id; gomp_construct = 0;
    const int old_want = gomp_want;
    gomp_want = want;
    fn(data);
    gomp_want = old_want;
    gomp_team = old; gomp_id = old_id; gomp_construct = old_c;
}
static bool gomp_share(long* s, long* e)
{
    Team::Loop* l;
    Team one(1);
    Team* t = gomp_team;
    std::lock_guard<std::mutex> g(t->m);
    l = &t->loops[gomp_construct];
    const long left = l->up ? (l->end - l->next + l->step - 1) / l->step : (l->next - l->end - l->step - 1) / -l->step;
    if (left <= 0) return false;
    const long k = left < l->chunk ? left : l->chunk;
    *s = l->next;
    l->next += k * l->step;
    *e = l->next;
    if (l->up ? *e > l->end : *e < l->end) *e = l->end;
    return true;
}
static bool gomp_start(long start, long end, long incr, long chunk, long* s, long* e)
{
    static thread_local Team* alone = 0;
    if (!gomp_team)
    {
        if (!alone) alone = new Team(1);
        gomp_team = alone;
    }
    ++gomp_construct;
    {
        std::lock_guard<std::mutex> g(gomp_team->m);
        Team::Loop& l = gomp_team->loops[gomp_construct];
        if (!l.set) { l.set = true; l.next = start; l.end = end; l.step = incr; l.up = incr > 0; l.chunk = chunk < 1 ? 1 : chunk; }
    }
    return gomp_share(s, e);
}
static std::mutex& gomp_named(void** p)
{
    static std::mutex guard;
    static std::map<void*, std::unique_ptr<std::mutex> > all;
    std::lock_guard<std::mutex> g(guard);
    std::unique_ptr<std::mutex>& m = all[(void*) p];
    if (!m) m.reset(new std::mutex);
    return *m;
}
extern "C" {
#define GX __attribute__((visibility("default"), used))
GX void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
    if (n == 0) n = (unsigned) gomp_want;
    const bool inside = gomp_team && gomp_team->size > 1;
    if (inside || n <= 1)
    {
        Team t(1);
        gomp_enter(&t, 0, fn, data, gomp_want);
        return;
    }
    Team t((int) n);
    const int want = gomp_want;
    std::vector<std::thread> th;
    for (unsigned i = 1; i < n; ++i) th.emplace_back([&t, i, fn, data, want]() { gomp_enter(&t, (int) i, fn, data, want); });
    gomp_enter(&t, 0, fn, data, want);
    for (auto& x : th) x.join();
}
GX void GOMP_barrier() { if (gomp_team) gomp_team->barrier(); }
GX void GOMP_critical_start() { gomp_named(0).lock(); }
GX void GOMP_critical_end() { gomp_named(0).unlock(); }
GX void GOMP_critical_name_start(void** p) { gomp_named(p).lock(); }
GX void GOMP_critical_name_end(void** p) { gomp_named(p).unlock(); }
static void* gomp_atomic_key;
GX void GOMP_atomic_start() { gomp_named(&gomp_atomic_key).lock(); }
GX void GOMP_atomic_end() { gomp_named(&gomp_atomic_key).unlock(); }
GX bool GOMP_single_start()
{
    ++gomp_construct;
    if (!gomp_team) return true;
    std::lock_guard<std::mutex> g(gomp_team->m);
    Team::Loop& l = gomp_team->loops[gomp_construct];
    const bool mine = !l.set;
    l.set = true;
    return mine;
}
#define GOMP_LOOP(kind) \
GX bool GOMP_loop_##kind##_start(long a, long b, long i, long c, long* s, long* e) { return gomp_start(a, b, i, c, s, e); } \
GX bool GOMP_loop_##kind##_next(long* s, long* e) { return gomp_share(s, e); }
GOMP_LOOP(static)
GOMP_LOOP(dynamic)
GOMP_LOOP(guided)
GOMP_LOOP(nonmonotonic_dynamic)
GOMP_LOOP(nonmonotonic_guided)
#define GOMP_RT(kind) \
GX bool GOMP_loop_##kind##_start(long a, long b, long i, long* s, long* e) { return gomp_start(a, b, i, 1, s, e); } \
GX bool GOMP_loop_##kind##_next(long* s, long* e) { return gomp_share(s, e); }
GOMP_RT(runtime)
GOMP_RT(nonmonotonic_runtime)
GOMP_RT(maybe_nonmonotonic_runtime)
GX void GOMP_loop_end() { GOMP_barrier(); }
GX void GOMP_loop_end_nowait() {}
#define GOMP_PLOOP(kind) \
GX void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, long c, unsigned f) \
{ \
    struct D { void (*fn)(void*); void* data; long a, b, i, c; } d = {fn, data, a, b, i, c}; \
    GOMP_parallel([](void* v) { \
        D* x = (D*) v; \
        { \
            std::lock_guard<std::mutex> g(gomp_team->m); \
            Team::Loop& l = gomp_team->loops[gomp_construct]; \
            if (!l.set) { l.set = true; l.next = x->a; l.end = x->b; l.step = x->i; l.up = x->i > 0; l.chunk = x->c < 1 ? 1 : x->c; } \
        } \
        x->fn(x->data); }, &d, n, f); \
}
GOMP_PLOOP(static)
GOMP_PLOOP(dynamic)
GOMP_PLOOP(guided)
GOMP_PLOOP(nonmonotonic_dynamic)
GOMP_PLOOP(nonmonotonic_guided)
// Tasks run at once.
GX void GOMP_taskwait() {}
GX void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int)
{
    if (!cpy) { fn(data); return; }
    std::vector<char> buf((size_t) (size + align));
    char* p = buf.data() + (align - (long) ((size_t) buf.data() % (size_t) align)) % align;
    cpy(p, data);
    fn(p);
}
GX int omp_get_thread_num() { return gomp_id; }
GX int omp_get_num_threads() { return gomp_team ? gomp_team->size : 1; }
GX int omp_get_max_threads() { return gomp_want; }
GX int omp_get_num_procs() { return 4; }
GX int omp_in_parallel() { return gomp_team && gomp_team->size > 1; }
GX void omp_set_num_threads(int n) { gomp_want = n < 1 ? 1 : n; }
GX void omp_set_max_active_levels(int) {}
GX void omp_set_nested(int) {}
GX void omp_set_dynamic(int) {}
GX int omp_get_level() { return gomp_team ? 1 : 0; }
GX int omp_get_active_level() { return omp_in_parallel(); }
struct omp_lock_box { std::mutex* m; };
GX void omp_init_lock(omp_lock_box* l) { l->m = new std::mutex; }
GX void omp_destroy_lock(omp_lock_box* l) { delete l->m; l->m = 0; }
GX void omp_set_lock(omp_lock_box* l) { l->m->lock(); }
GX void omp_unset_lock(omp_lock_box* l) { l->m->unlock(); }
GX int omp_test_lock(omp_lock_box* l) { return l->m->try_lock(); }
GX double omp_get_wtime()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}
}
#endif
