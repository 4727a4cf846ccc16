// Every processing function as a function: what a call returns is fixed by its
// arguments. The same calls, made alone in a new process and made after and during
// other calls, with new and with used plans, by one thread and by several.
//
// A call is (function f, precision p, variant v). Variant 0 is the base; 1 has other
// contents in arrays of the same shapes; 2, 4 and 5 change one scalar; 3 other shapes.
#include "arr.h"
#include "script.h"
#include <malloc.h>
#include <memory>
#include <mutex>
#include <thread>
#ifdef TSAN
#include "gomp.h"
#else
#include <omp.h>
#endif
#include "ska-sdp-func/clean/sdp_hogbom_clean.h"
#include "ska-sdp-func/clean/sdp_ms_clean_cornwell.h"
#include "ska-sdp-func/examples/sdp_function_example_a.h"
#include "ska-sdp-func/examples/sdp_vector_add.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft_padded_size.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"
#include "ska-sdp-func/grid_data/sdp_degrid_uvw_custom.h"
#include "ska-sdp-func/grid_data/sdp_grid_wstack_wtower.h"
#include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_height.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/numeric_functions/sdp_fft_convolution.h"
#include "ska-sdp-func/station_beam/sdp_element_dipole.h"
#include "ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.h"
#include "ska-sdp-func/station_beam/sdp_station.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"
#include "ska-sdp-func/visibility/sdp_tiled_functions.h"
#include "ska-sdp-func/visibility/sdp_weighting.h"
#include "ska-sdp-func/utility/sdp_logging.h"

// ---------------------------------------------------------------- shared state
static std::mutex big_lock;
struct Input { Arr a; };
static std::map<std::string, std::unique_ptr<Arr> > inputs;     // Shared by all calls of a case.
struct Plan { std::string key; void* p; std::function<void(void*)> free; bool busy; };
static std::vector<std::unique_ptr<Plan> > plans;

static uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static double unit(uint64_t z) { return (double) (mix(z) >> 11) / 4503599627370496.0 - 1; } // -1 to 1

// What came out of one call: for every array or number, its size and some projections.
enum { NOUT = 10, NPROJ = 4 };
struct Sketch
{
    int n, err;
    double v[NOUT][NPROJ + 2];
};

typedef std::function<cd(i64, double)> Val;     // Element i; a random number from -1 to 1.
struct C
{
    std::string f;
    char prec;
    int v;
    bool reuse;
    sdp_Error e = SDP_SUCCESS;
    sdp_Error* st = &e;
    Sketch sk;
    std::vector<std::unique_ptr<Arr> > outs;
    std::vector<std::pair<Arr*, uint64_t> > ins;
    bool inputs_ok = true;
    std::vector<std::function<void()> > later;

    i64 n(i64 a, i64 b) const { return v == 3 ? b : a; }
    template<typename T> T p(T a, T b) const { return v == 2 ? b : a; }
    template<typename T> T q(T a, T b) const { return v == 4 ? b : a; }
    template<typename T> T r(T a, T b) const { return v == 5 ? b : a; }
    sdp_MemType type(char ty) const
    {
        switch (ty)
        {
        case 'R': return prec == 'd' ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
        case 'C': return prec == 'd' ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
        case 'D': return SDP_MEM_DOUBLE;
        case 'Z': return SDP_MEM_COMPLEX_DOUBLE;
        case 'S': return SDP_MEM_FLOAT;
        default: return SDP_MEM_INT;
        }
    }
    static uint64_t hash(const Arr& a)
    {
        uint64_t h = 1;
        const unsigned char* b = a.base();
        for (size_t i = 0; i < a.bytes; ++i) h = (h ^ b[i]) * 0x100000001B3ULL;
        return h;
    }
    Val usual() const { return [](i64, double x) { return cd(x, unit((uint64_t) (x * 1e15))); }; }
    sdp_Mem* in(const char* name, char ty, const Sh& sh, Val val = Val())
    {
        const std::string key = f + prec + std::to_string(v) + name;
        std::lock_guard<std::mutex> g(big_lock);
        std::unique_ptr<Arr>& a = inputs[key];
        if (!a)
        {
            a.reset(new Arr(type(ty), sh, 1));
            fill(*a, name, val ? val : usual());
            a->snap.resize(8);
            const uint64_t h = hash(*a);
            memcpy(a->snap.data(), &h, 8);
        }
        uint64_t h;
        memcpy(&h, a->snap.data(), 8);
        ins.push_back({a.get(), h});
        return a->m;
    }
    void fill(Arr& a, const char* name, const Val& val)
    {
        uint64_t s = v == 1 ? 77 : 5;
        for (char ch : f + name) s = mix(s + (unsigned char) ch);
        a.fill([&](i64 i) { return val(i, unit(s + (uint64_t) i)); });
    }
    sdp_Mem* out(const char* name, char ty, const Sh& sh, Val val = Val())
    {
        outs.emplace_back(new Arr(type(ty), sh, 1));
        fill(*outs.back(), name, val ? val : usual());
        return outs.back()->m;
    }
    void num(double x)
    {
        if (sk.n >= NOUT) _exit(95);
        double* o = sk.v[sk.n++];
        o[0] = std::isfinite(x) ? std::fabs(x) : 0;
        o[1] = std::isfinite(x) ? 0 : 1;
        for (int k = 0; k < NPROJ; ++k) o[2 + k] = std::isfinite(x) ? x : 0;
    }
    void sketch(const Arr& a)
    {
        if (sk.n >= NOUT) _exit(95);
        double* o = sk.v[sk.n++];
        for (int k = 0; k < NPROJ + 2; ++k) o[k] = 0;
        for (i64 i = 0; i < a.n; ++i)
        {
            const cd z = a.get(i);
            const double xs[2] = {z.real(), z.imag()};
            for (int j = 0; j < 2; ++j)
            {
                if (!std::isfinite(xs[j])) { o[1] += 1; continue; }
                o[0] += std::fabs(xs[j]);
                uint64_t h = mix((uint64_t) (2 * i + j));
                for (int k = 0; k < NPROJ; ++k, h >>= 1) o[2 + k] += h & 1 ? xs[j] : -xs[j];
            }
        }
    }
    template<typename T> void plan(const std::string& key, std::function<T*()> make,
            std::function<void(T*)> destroy, std::function<void(T*)> use)
    {
        if (!reuse) { T* t = make(); use(t); destroy(t); return; }
        Plan* p = 0;
        {
            std::lock_guard<std::mutex> g(big_lock);
            for (auto& x : plans) if (x->key == key && !x->busy) { p = x.get(); p->busy = true; break; }
        }
        if (!p)
        {
            std::unique_ptr<Plan> x(new Plan{key, make(), [destroy](void* y) { destroy((T*) y); }, true});
            p = x.get();
            std::lock_guard<std::mutex> g(big_lock);
            plans.push_back(std::move(x));
        }
        use((T*) p->p);
        std::lock_guard<std::mutex> g(big_lock);
        p->busy = false;
    }
};
static std::map<std::string, std::function<void(C&)> > reg;

static Val K(double re, double im = 0) { return [=](i64, double) { return cd(re, im); }; }
static Val list(std::vector<double> l) { return [=](i64 i, double) { return cd(l[i % l.size()]); }; }
static Val pm(double a) { return [=](i64, double x) { return cd(a * x, a * unit((uint64_t) (x * 1e15))); }; }
static Val from(double lo, double hi) { return [=](i64, double x) { return cd(lo + (hi - lo) * (x + 1) / 2); }; }
static Val whole(int lo, int hi) { return [=](i64, double x) { return cd((double) (lo + (int) ((hi - lo + 1) * (x + 1) / 2))); }; }

static void clean(C& c, bool ms)
{
    const i64 n = c.n(32, 40);
    sdp_Mem* d = c.in("dirty", 'R', {n, n}, [](i64, double x) { return cd(x * x * x * 10); });
    const double w = c.p(3., 2.);
    sdp_Mem* psf = c.in("psf", 'R', {2 * n, 2 * n}, [n, w](i64 i, double) {
        const double x = (double) (i / (2 * n) - n), y = (double) (i % (2 * n) - n);
        return cd(std::exp(-(x * x + y * y) / w)); });
    sdp_Mem* b = c.in("beam", 'R', {4}, list({1.5, 1.2, c.r(0.3, 0.9), (double) n}));
    sdp_Mem* m = c.out("model", 'R', {n, n});
    sdp_Mem* r = c.out("residual", 'R', {n, n});
    sdp_Mem* s = c.out("sky", 'R', {n, n});
    const double gain = c.q(0.25, 0.5);
    if (ms)
        sdp_ms_clean_cornwell(d, psf, b, c.in("scales", 'I', {3}, list({0, c.q(2., 3.), 4})), gain, 0.01, 6, m, r, s, c.st);
    else sdp_hogbom_clean(d, psf, b, gain, 0.01, 25, m, r, s, c.st);
}
static std::string key(const char* n, std::initializer_list<double> l)
{
    std::string s = n;
    for (double x : l) { char b[40]; snprintf(b, sizeof b, "/%.17g", x); s += b; }
    return s;
}
static void with_fft(C& c, Sh sh, int nd, int fwd, bool inplace, std::function<void(sdp_Fft*)> use)
{
    std::string k = key("fft", {(double) c.prec, (double) nd, (double) fwd, (double) inplace});
    for (i64 x : sh) k += "," + std::to_string(x);
    c.plan<sdp_Fft>(k, [&]() {
        sdp_Error e = SDP_SUCCESS;
        Arr a(c.type('C'), sh), b(c.type('C'), sh);
        return sdp_fft_create(a.m, inplace ? a.m : b.m, nd, fwd, &e); },
        [](sdp_Fft* p) { sdp_fft_free(p); }, use);
}
static void with_swiftly(C& c, std::function<void(sdp_SwiFTly*)> use)
{
    const double w = c.p(8., 6.);
    const i64 big = c.n(1, 2);
    c.plan<sdp_SwiFTly>(key("swiftly", {w, (double) big}), [=]() {
        sdp_Error e = SDP_SUCCESS;
        return sdp_swiftly_create(64 * big, 32 * big, 16, w, &e); },
        [](sdp_SwiFTly* p) { sdp_swiftly_free(p); }, use);
}
static void with_direct(C& c, std::function<void(sdp_GridderDirect*)> use)
{
    const double th = c.p(0.1, 0.125), sh = c.q(0., 0.05);
    const i64 n = c.n(16, 20);
    c.plan<sdp_GridderDirect>(key("direct", {th, sh, (double) n}), [=]() {
        sdp_Error e = SDP_SUCCESS;
        return sdp_gridder_direct_create((int) n, (int) n / 2, th, 1., sh, -sh, 4, &e); },
        [](sdp_GridderDirect* p) { sdp_gridder_direct_free(p); }, use);
}
static void with_tower(C& c, std::function<void(sdp_GridderWtowerUVW*)> use)
{
    const double th = c.p(0.1, 0.125), sh = c.q(0., 0.05);
    const i64 n = c.n(32, 40);
    c.plan<sdp_GridderWtowerUVW>(key("tower", {th, sh, (double) n}), [=]() {
        sdp_Error e = SDP_SUCCESS;
        return sdp_gridder_wtower_uvw_create((int) n, (int) n / 2, th, 1., sh, -sh, 4, 64, 4, 64, &e); },
        [](sdp_GridderWtowerUVW* p) { sdp_gridder_wtower_uvw_free(p); }, use);
}
static void with_coords(C& c, std::function<void(sdp_SkyCoord*, sdp_SkyCoord*)> f)
{
    sdp_SkyCoord* a = sdp_sky_coord_create("icrs", 0.1, c.p(0.2, 0.25), 0.);
    sdp_SkyCoord* b = sdp_sky_coord_create("icrs", 0.3, c.q(0.1, -0.15), 0.);
    f(a, b);
    sdp_sky_coord_free(a); sdp_sky_coord_free(b);
}

static void build()
{
    // ------------------------------------------------------------ memory
    reg["mem_copy"] = [](C& c) {
        sdp_Mem* a = c.in("a", 'C', {c.n(30, 25), 16, 3});
        sdp_Mem* b = sdp_mem_create_copy(a, SDP_MEM_CPU, c.st);
        sdp_Mem* o = c.out("o", 'C', {c.n(30, 25), 16, 3});
        sdp_mem_copy_contents(o, b, 0, c.p(0, 5), sdp_mem_num_elements(b) - c.p(0, 5), c.st);
        sdp_Mem* d = sdp_mem_convert_precision(o, c.prec == 'd' ? SDP_MEM_COMPLEX_FLOAT : SDP_MEM_COMPLEX_DOUBLE, c.st);
        sdp_Mem* d2 = sdp_mem_convert_precision(d, c.type('C'), c.st);
        sdp_mem_copy_contents(o, d2, 0, 0, sdp_mem_num_elements(o) / 2, c.st);
        sdp_mem_ref_dec(b); sdp_mem_ref_dec(d); sdp_mem_ref_dec(d2); };
    // ------------------------------------------------------------ transforms
    reg["fft_exec"] = [](C& c) {
        const Sh sh = {c.n(20, 18), c.n(30, 30)};
        const bool all = c.p(1, 0);
        sdp_Mem* a = c.in("in", 'C', sh); sdp_Mem* b = c.out("out", 'C', sh);
        with_fft(c, sh, all ? 2 : 1, c.q(1, 0), false, [&](sdp_Fft* p) { sdp_fft_exec(p, a, b, c.st); }); };
    reg["fft_1d"] = [](C& c) {
        const Sh sh = {c.n(97, 128)};
        sdp_Mem* a = c.in("in", 'C', sh); sdp_Mem* b = c.out("out", 'C', sh);
        with_fft(c, sh, 1, c.q(1, 0), false, [&](sdp_Fft* p) { sdp_fft_exec(p, a, b, c.st); }); };
    reg["fft_shift"] = [](C& c) {
        const Sh sh = {c.n(16, 24), c.n(24, 20)};
        sdp_Mem* a = c.out("data", 'C', sh);
        with_fft(c, sh, 2, c.q(1, 0), true, [&](sdp_Fft* p) { sdp_fft_exec_shift(p, a, c.p(1, 0), c.st); }); };
    reg["fft_norm_phase"] = [](C& c) {
        sdp_Mem* a = c.out("a", 'C', {c.n(31, 40), 33}); sdp_Mem* b = c.out("b", 'C', {c.n(31, 40), 33});
        sdp_fft_norm(a, c.st); sdp_fft_phase(b, c.st); };
    reg["convolution"] = [](C& c) {
        sdp_Mem* a = c.in("a", 'C', {c.n(30, 32), c.n(30, 32)}); sdp_Mem* b = c.in("b", 'C', {c.n(12, 10), c.n(12, 10)});
        sdp_fft_convolution(a, b, c.out("o", 'C', {c.n(30, 32), c.n(30, 32)}), c.st); };
    reg["padded_size"] = [](C& c) { c.num(sdp_fft_padded_size((int) c.n(101, 202), c.p(1.5, 1.25))); };
    reg["pswf_array"] = [](C& c) { sdp_generate_pswf(c.p(0, 1), c.q(8., 12.), c.out("o", 'D', {c.n(33, 40)}), c.st); };
    reg["pswf_plan"] = [](C& c) {
        sdp_Mem* o = c.out("o", 'D', {c.n(33, 40)});
        const double k = c.q(8., 11.);
        const int m = c.p(0, 1);
        c.plan<sdp_Pswf>(key("pswf", {k, (double) m}), [=]() { return sdp_pswf_create(m, k); },
            [](sdp_Pswf* p) { sdp_pswf_free(p); }, [&](sdp_Pswf* p) {
            sdp_pswf_generate(p, o, 0, c.r(0, 1), c.st);
            c.num(sdp_pswf_evaluate(p, 0.375)); c.num(sdp_pswf_evaluate(p, -0.9)); }); };
    reg["sw_facet"] = [](C& c) {
        const i64 k = c.n(1, 2), rows = 5;
        sdp_Mem* f = c.in("facet", 'Z', {rows, 24 * k}); sdp_Mem* pf = c.out("prep", 'Z', {rows, 32 * k});
        sdp_Mem* cn = c.out("contribution", 'Z', {rows, 8}); sdp_Mem* sg = c.out("sum", 'Z', {rows, 16});
        sdp_Mem* o = c.out("subgrid", 'Z', {rows, 12});
        with_swiftly(c, [&](sdp_SwiFTly* p) {
            sdp_swiftly_prepare_facet(p, f, pf, c.q(8, 16), c.st);
            sdp_swiftly_extract_from_facet(p, pf, cn, c.r(8, 16), c.st);
            sdp_swiftly_add_to_subgrid(p, cn, sg, c.q(8, 16), c.st);
            sdp_swiftly_finish_subgrid(p, sg, o, c.r(8, 16), c.st); }); };
    reg["sw_subgrid"] = [](C& c) {
        const i64 k = c.n(1, 2), rows = 5;
        sdp_Mem* sg = c.out("subgrid", 'Z', {rows, 16}); sdp_Mem* cn = c.out("contribution", 'Z', {rows, 8});
        sdp_Mem* pf = c.out("sum", 'Z', {rows, 32 * k}); sdp_Mem* f = c.out("facet", 'Z', {rows, 24 * k});
        with_swiftly(c, [&](sdp_SwiFTly* p) {
            sdp_swiftly_prepare_subgrid_inplace(p, sg, c.r(8, 16), c.st);
            sdp_swiftly_extract_from_subgrid(p, sg, cn, c.q(8, 16), c.st);
            sdp_swiftly_add_to_facet(p, cn, pf, c.r(8, 16), c.st);
            sdp_swiftly_finish_facet(p, pf, f, c.q(8, 16), c.st); }); };
    reg["sw_2d"] = [](C& c) {
        sdp_Mem* cn = c.out("contribution", 'Z', {8, 8}); sdp_Mem* sg = c.out("sum", 'Z', {16, 16});
        sdp_Mem* s2 = c.out("subgrid", 'Z', {16, 16}); sdp_Mem* c2 = c.out("contribution2", 'Z', {8, 8});
        sdp_Mem* s1 = c.out("oned", 'Z', {4, 16});
        with_swiftly(c, [&](sdp_SwiFTly* p) {
            sdp_swiftly_add_to_subgrid_2d(p, cn, sg, c.q(8, 16), 8, c.st);
            sdp_swiftly_finish_subgrid_inplace_2d(p, sg, c.r(8, 16), 8, c.st);
            sdp_swiftly_prepare_subgrid_inplace_2d(p, s2, 8, c.r(8, 16), c.st);
            sdp_swiftly_extract_from_subgrid_2d(p, s2, c2, 8, c.q(8, 16), c.st);
            sdp_swiftly_finish_subgrid_inplace(p, s1, c.q(8, 16), c.st); }); };

    // ------------------------------------------------------------ gridding
    reg["degrid_custom"] = [](C& c) {
        const i64 n = c.n(24, 30);
        sdp_Mem* g = c.in("grid", 'Z', {2, 6, n, n, 1}); sdp_Mem* u = c.in("uvw", 'D', {3, 6, 3}, pm(60));
        sdp_Mem* uk = c.in("uvkernel", 'D', {16, 4}); sdp_Mem* wk = c.in("wkernel", 'D', {16, 4});
        sdp_degrid_uvw_custom(g, u, uk, wk, c.p(0.05, 0.04), c.q(40., 50.), C0, C0 / 8, c.r(0, 1), c.out("vis", 'Z', {3, 6, 2, 1}), c.st); };
    auto rows = [](C& c) { return c.n(60, 75); };
    reg["clamp_single"] = [=](C& c) {
        const i64 n = 40 * rows(c);
        sdp_Mem* u = c.in("uvw", 'R', {n, 3}, pm(40)); sdp_Mem* s = c.in("start", 'I', {n}, whole(0, 4)); sdp_Mem* e = c.in("end", 'I', {n}, whole(4, 12));
        sdp_gridder_clamp_channels_single(u, c.p(0, 2), C0, c.q(C0 / 4, C0 / 5), s, e, -60, c.r(70, 50), c.out("s", 'I', {n}), c.out("e", 'I', {n}), -1, -1, c.st); };
    reg["clamp_uv"] = [=](C& c) {
        const i64 n = 40 * rows(c);
        sdp_Mem* u = c.in("uvw", 'R', {n, 3}, pm(40)); sdp_Mem* s = c.in("start", 'I', {n}, whole(0, 4)); sdp_Mem* e = c.in("end", 'I', {n}, whole(4, 12));
        sdp_gridder_clamp_channels_uv(u, C0, c.q(C0 / 4, C0 / 5), s, e, -60, c.r(70, 50), -70, c.p(80, 40), c.out("s", 'I', {n}), c.out("e", 'I', {n}), -1, -1, c.st); };
    struct Rows { sdp_Mem *u, *s, *e; i64 n; };
    auto table = [=](C& c, double reach) {
        Rows t; t.n = rows(c);
        t.u = c.in("uvw", 'R', {t.n, 3}, pm(reach)); t.s = c.in("start", 'I', {t.n}, whole(0, 1)); t.e = c.in("end", 'I', {t.n}, whole(2, 3));
        return t; };
    reg["direct_degrid"] = [=](C& c) {
        Rows t = table(c, 20); const i64 n = c.n(16, 20) / 2;
        sdp_Mem* g = c.in("subgrid", 'C', {n, n}); sdp_Mem* o = c.out("vis", 'C', {t.n, 3});
        with_direct(c, [&](sdp_GridderDirect* p) { sdp_gridder_direct_degrid(p, g, c.r(0, 1), 0, 1, C0, C0 / 10, t.u, t.s, t.e, o, c.st); }); };
    reg["direct_grid"] = [=](C& c) {
        Rows t = table(c, 20); const i64 n = c.n(16, 20) / 2;
        sdp_Mem* v = c.in("vis", 'C', {t.n, 3}); sdp_Mem* o = c.out("subgrid", 'C', {n, n});
        with_direct(c, [&](sdp_GridderDirect* p) { sdp_gridder_direct_grid(p, v, t.u, t.s, t.e, C0, C0 / 10, o, c.r(0, 1), 0, 1, c.st); }); };
    reg["direct_correct"] = [](C& c) {
        sdp_Mem* a = c.out("a", 'C', {8, 8}); sdp_Mem* b = c.out("b", 'C', {8, 8});
        with_direct(c, [&](sdp_GridderDirect* p) { sdp_gridder_direct_degrid_correct(p, a, c.r(0, 1), 0, 1, c.st); sdp_gridder_direct_grid_correct(p, b, 0, c.r(0, 1), 1, c.st); }); };
    reg["tower_degrid"] = [=](C& c) {
        Rows t = table(c, 25); const i64 n = c.n(32, 40) / 2;
        sdp_Mem* g = c.in("subgrid", 'C', {n, n}); sdp_Mem* o = c.out("vis", 'C', {t.n, 3});
        with_tower(c, [&](sdp_GridderWtowerUVW* p) { sdp_gridder_wtower_uvw_degrid(p, g, c.r(0, 1), 0, 1, C0, C0 / 10, t.u, t.s, t.e, o, -1, -1, c.st); }); };
    reg["tower_grid"] = [=](C& c) {
        Rows t = table(c, 25); const i64 n = c.n(32, 40) / 2;
        sdp_Mem* v = c.in("vis", 'C', {t.n, 3}); sdp_Mem* o = c.out("subgrid", 'C', {n, n});
        with_tower(c, [&](sdp_GridderWtowerUVW* p) { sdp_gridder_wtower_uvw_grid(p, v, t.u, t.s, t.e, C0, C0 / 10, o, c.r(0, 1), 0, 1, -1, -1, c.st); }); };
    reg["tower_correct"] = [](C& c) {
        sdp_Mem* a = c.out("a", 'C', {16, 16}); sdp_Mem* b = c.out("b", 'C', {16, 16});
        with_tower(c, [&](sdp_GridderWtowerUVW* p) { sdp_gridder_wtower_uvw_degrid_correct(p, a, c.r(0, 1), 0, 1, c.st); sdp_gridder_wtower_uvw_grid_correct(p, b, 0, c.r(0, 1), 1, c.st); }); };
    reg["correct_pswf"] = [](C& c) { sdp_gridder_grid_correct_pswf(32, c.p(0.1, 0.125), 1., c.q(0., 0.05), 0.02, (int) c.r(4, 6), 4, c.out("facet", 'C', {c.n(30, 24), c.n(30, 24)}), 1, 0, c.st); };
    reg["correct_wstack"] = [](C& c) { sdp_gridder_grid_correct_w_stack(32, c.p(0.1, 0.125), 1., c.q(0., 0.05), 0.02, c.out("facet", 'C', {c.n(30, 24), c.n(30, 24)}), 1, 0, 3, c.r(0, 1), c.st); };
    reg["worst_case"] = [](C& c) { sdp_gridder_worst_case_image(c.p(0.1, 0.125), c.q(0.08, 0.07), c.out("image", 'C', {c.n(32, 40), c.n(32, 40)}), c.st); };
    reg["height"] = [](C& c) { c.num(sdp_gridder_determine_max_w_tower_height((int) c.n(64, 80), 32, c.p(0.1, 0.125), 20., c.q(0., 0.05), 0., 8, 1024, 8, 1024, 0.08, 0.5, 2, 1e-2, c.st)); };
    reg["w_step"] = [](C& c) { c.num(sdp_gridder_determine_w_step(c.p(0.1, 0.125), 0.09, c.q(0., 0.05), 0., c.r(0.2, 0.25))); };
    auto stack = [=](C& c, bool grid) {
        const i64 n = c.n(64, 72), k = 300;
        sdp_Mem* u = c.in("uvw", 'R', {k, 3}, pm(150));
        const double th = c.p(0.1, 0.11), sh = c.q(0., 0.03);
        if (grid)
        {
            sdp_grid_wstack_wtower_grid_all(c.in("vis", 'C', {k, 2}), C0, C0 / 10, u, 32, th, 20., sh, -sh, 6, 64, 6, 64, 0.5,
                4, 0, c.out("image", 'R', {n, n}, K(0)), c.r(3, 2), c.st);
            // The border of the image is rounding divided by next to nothing.
            Arr& a = *c.outs.back();
            for (i64 i = 0; i < n * n; ++i)
            {
                const i64 x = std::llabs(i / n - n / 2), y = std::llabs(i % n - n / 2);
                if (std::max(x, y) > n / 4) a.set(i, 0.0);
            }
        }
        else
            sdp_grid_wstack_wtower_degrid_all(c.in("image", 'R', {n, n}), C0, C0 / 10, u, 32, th, 20., sh, -sh, 6, 64, 6, 64, 0.5,
                4, 0, c.out("vis", 'C', {k, 2}), c.r(3, 2), c.st); };
    reg["wstack_grid"] = [=](C& c) { stack(c, true); };
    reg["wstack_degrid"] = [=](C& c) { stack(c, false); };

    // ------------------------------------------------------------ gridder utilities
    reg["accumulate"] = [](C& c) {
        const Sh sh = {c.n(31, 40), 33};
        sdp_Mem* a = c.in("a", 'C', sh); sdp_Mem* b = c.in("b", 'Z', sh);
        sdp_gridder_accumulate_scaled_arrays(c.out("o", 'C', sh), a, b, c.p(1, -2), c.st);
        sdp_gridder_accumulate_scaled_arrays(c.out("o2", 'C', sh), a, 0, 1, c.st);
        sdp_gridder_scale_inv_array(c.out("o3", 'C', sh), a, b, c.q(1, 2), c.st); };
    reg["compare"] = [](C& c) {
        const Sh sh = {c.n(31, 40), 33};
        sdp_Mem* a = c.in("a", 'C', sh, [](i64, double x) { return x > 0 ? cd(0) : cd(x, 1); }); sdp_Mem* b = c.in("b", 'C', sh);
        sdp_gridder_residual(a, b, c.out("o", 'C', sh), c.st);
        c.num(sdp_gridder_rms_diff(a, b, c.st)); c.num((double) sdp_gridder_count_nonzero_pixels(a, c.st));
        i64 x = -1;
        sdp_gridder_sum_diff(c.in("i", 'I', {600}, whole(0, 999)), c.in("j", 'I', {600}, whole(0, 500)), &x, -1, -1, c.st);
        c.num((double) x); };
    reg["gdft"] = [=](C& c) {
        Rows t = table(c, 40);
        sdp_gridder_dft(t.u, t.s, t.e, c.in("flux", 'D', {7}), c.in("lmn", 'D', {7, 3}, pm(0.1)), 0, c.r(0, 2), 1, c.p(0.1, 0.2), c.q(1., 2.), C0, C0 / 10, c.out("vis", 'C', {t.n, 3}), c.st); };
    reg["gidft"] = [=](C& c) {
        Rows t = table(c, 40);
        const i64 n = 8;
        sdp_gridder_idft(t.u, c.in("vis", 'C', {t.n, 3}), t.s, t.e, c.in("lmn", 'D', {n * n, 3}, pm(0.1)), c.in("taper", 'D', {n}), 0, c.r(0, 2), 1,
                c.p(0.1, 0.2), c.q(1., 2.), C0, C0 / 10, c.out("image", 'C', {n, n}), c.st); };
    reg["flmn"] = [](C& c) {
        const i64 n = c.n(12, 14);
        sdp_gridder_image_to_flmn(c.in("image", 'C', {n, n}, from(0.5, 2)), c.p(0.1, 0.2), c.q(0., 0.1), 0.05, c.in("taper", 'D', {n}, from(0.5, 2)),
                c.out("flux", 'D', {n * n}), c.out("lmn", 'D', {n * n, 3}), c.st); };
    reg["kernels"] = [](C& c) {
        const i64 n = c.n(8, 6);
        sdp_gridder_make_kernel(c.in("window", 'R', {n}), c.out("k", 'R', {17, n}), c.st);
        sdp_gridder_make_pswf_kernel((int) n, c.out("k2", 'R', {17, n}), c.st);
        sdp_gridder_make_w_pattern((int) (2 * n), c.p(0.1, 0.2), c.q(0., 0.1), 0.05, c.r(1., 2.), c.out("w", 'Z', {2 * n, 2 * n}), c.st); };
    reg["subgrids"] = [](C& c) {
        const i64 n = c.n(30, 36), m = 14;
        sdp_gridder_shift_subgrids(c.out("s", 'C', {3, 10, 10}), c.st);
        sdp_gridder_subgrid_add(c.out("g", 'C', {n, n}), c.p(3, -4), c.q(1, 9), c.in("sub", 'C', {m, m}), c.r(2., 3.), c.st);
        sdp_gridder_subgrid_cut_out(c.in("grid", 'C', {n, n}), c.p(3, -4), c.q(1, 9), c.out("cut", 'C', {m, m}), c.st); };
    reg["bounds"] = [=](C& c) {
        Rows t = table(c, 40);
        double a[3] = {0, 0, 0}, b[3] = {0, 0, 0};
        sdp_gridder_uvw_bounds_all(t.u, C0, c.p(C0 / 10, C0 / 3), t.s, t.e, a, b, c.st);
        for (int k = 0; k < 3; ++k) { c.num(a[k]); c.num(b[k]); } };

    // ------------------------------------------------------------ beams, cleaning
    reg["dipole"] = [](C& c) {
        const i64 n = c.n(40, 55);
        sdp_element_beam_dipole((int) n, c.in("theta", 'R', {n}, from(0, 1.5)), c.in("phi", 'R', {n}, from(0, 6)), c.p(1e8, 1.2e8), c.q(1.5, 2.), 4, 0, c.out("beam", 'C', {n, 4}), c.st); };
    reg["harp"] = [](C& c) {
        const i64 n = c.n(40, 55);
        const int l = c.p(3, 2);
        sdp_element_beam_spherical_wave_harp((int) n, c.in("theta", 'R', {n}, from(0.1, 1.5)), c.in("phix", 'R', {n}, from(0, 6)), c.in("phiy", 'R', {n}, from(0, 6)), l,
                c.in("coeffs", 'C', {(l + 1) * (l + 1) - 1, 4}), 0, c.out("beam", 'C', {n, 4}), c.st); };
    reg["station"] = [](C& c) {
        const i64 n = c.n(40, 55), k = 12;
        sdp_Mem* w = c.in("w", 'C', {k}); sdp_Mem* x = c.in("x", 'R', {k}); sdp_Mem* y = c.in("y", 'R', {k}); sdp_Mem* z = c.in("z", 'R', {k});
        sdp_Mem* px = c.in("px", 'R', {n}); sdp_Mem* py = c.in("py", 'R', {n}); sdp_Mem* pz = c.in("pz", 'R', {n});
        sdp_station_beam_aperture_array(c.p(6., 7.), w, x, y, z, 0, (int) n, px, py, pz, c.in("index", 'I', {k}, whole(0, 1)),
                c.in("element", 'C', {2, n, 4}), 0, c.out("beam", 'C', {n, 4}), c.q(0, 1), 1, c.r(1, 0), c.st);
        sdp_station_beam_aperture_array(c.p(6., 7.), w, x, y, z, 0, (int) n, px, py, pz, 0, 0, 0, c.out("beam2", 'C', {n}), c.q(0, 1), 1, 1, c.st); };
    reg["hogbom"] = [](C& c) { clean(c, false); };
    reg["msclean"] = [](C& c) { clean(c, true); };

    // ------------------------------------------------------------ visibilities
    reg["dft"] = [](C& c) {
        const i64 b = c.n(5, 7);
        sdp_dft_point_v00(c.in("d", 'D', {9, 3}, pm(0.3)), c.in("f", 'Z', {9, 3, 4}), c.in("uvwl", 'D', {4, b, 3, 3}, pm(50)), c.out("v0", 'Z', {4, b, 3, 4}), c.st);
        sdp_dft_point_v01(c.in("d", 'D', {9, 3}, pm(0.3)), c.in("f", 'Z', {9, 3, 4}), c.in("uvw", 'D', {4, b, 3}, pm(50)), c.p(C0, 2 * C0), c.q(C0 / 3, C0), c.out("v1", 'Z', {4, b, 3, 4}), c.st); };
    reg["flagger"] = [](C& c) {
        const Sh sh = {c.n(24, 30), 4, 9, 2};
        sdp_Mem* v = c.in("vis", 'C', sh, [](i64 i, double x) { return cd(std::fabs(x) + (mix(i) % 13 == 0 ? 5 : 0) + (i / 72 % 7 == 3 ? 4 : 0), 0); });
        sdp_flagger_dynamic_threshold(v, c.out("flags", 'I', sh, K(0)), c.p(0.5, 0.25), c.q(2.5, 1.), 2.5, 2.5, (int) c.r(1, 2), 2, 6, c.st); };
    reg["rotate"] = [](C& c) {
        const i64 b = c.n(30, 40);
        sdp_Mem* u = c.in("uvw", 'R', {4, b, 3}, pm(20)); sdp_Mem* v = c.in("vis", 'C', {4, b, 3, 4});
        sdp_Mem* uo = c.out("uo", 'R', {4, b, 3}); sdp_Mem* vo = c.out("vo", 'C', {4, b, 3, 4});
        with_coords(c, [&](sdp_SkyCoord* x, sdp_SkyCoord* y) {
            sdp_phase_rotate_uvw(x, y, u, uo, c.st);
            sdp_phase_rotate_vis(x, y, c.r(C0, 2 * C0), C0 / 8, u, v, vo, c.st); }); };
    reg["weighting"] = [](C& c) {
        const i64 b = c.n(20, 25), g = 16;
        sdp_Mem* u = c.in("uvw", 'D', {4, b, 3}, pm(9)); sdp_Mem* f = c.in("freq", 'D', {2}, list({C0 / 2, C0 / 3}));
        sdp_Mem* w = c.in("w", 'R', {4, b, 2, 1}, from(0.5, 2));
        sdp_weighting_briggs(u, f, c.p(8., 7.), c.q(0., 0.5), c.out("grid", 'R', {g, g, 1}, K(0)), w, c.out("o", 'R', {4, b, 2, 1}), c.st);
        sdp_weighting_uniform(u, f, c.p(8., 7.), c.out("grid2", 'R', {g, g, 1}, K(0)), w, c.out("o2", 'R', {4, b, 2, 1}), c.st); };
    // A grid of 32 x 32 cells of one wavelength in tiles of 8 x 4; all samples kept.
    reg["tiles"] = [](C& c) {
        const i64 nt = 4, nb = c.n(20, 25), nc = 2, nv = nt * nb * nc;
        const int G = 32, tu = 8, tv = c.p(4, 8), ntile = 4 * (32 / tv);
        const double cell = 1. / G;
        sdp_Mem* u = c.in("uvw", 'R', {nt, nb, 3}, [](i64, double x) { return cd(std::floor(x * 6)); });
        sdp_Mem* f = c.in("freq", 'R', {nc}, list({C0, c.q(1., 2.) * C0}));
        sdp_Mem* v = c.in("vis", 'C', {nt, nb, nc, 1}); sdp_Mem* w = c.in("wt", 'R', {nt, nb, nc, 1}, from(0.5, 2));
        sdp_Mem* off = c.out("off", 'I', {ntile + 1}, K(0)); sdp_Mem* pts = c.out("pts", 'I', {ntile}, K(0)); sdp_Mem* skip = c.out("skip", 'I', {1}, K(0));
        int n = 0;
        sdp_count_and_prefix_sum(u, f, v, G, tu, tv, cell, 0, &n, off, pts, skip, c.st);
        c.num(n);
        if (*c.st || n < 1 || n > nv) return;
        Arr o1(SDP_MEM_INT, {ntile + 1}), o2(SDP_MEM_INT, {ntile + 1});
        for (int i = 0; i <= ntile; ++i) { const cd z = ((int*) sdp_mem_data(off))[i]; o1.set(i, z); o2.set(i, z); }
        Arr suu(c.type('R'), {n}), svv(c.type('R'), {n}), sw(c.type('R'), {n}), st(SDP_MEM_INT, {n}), sv(c.type('C'), {n}), si(SDP_MEM_INT, {n});
        if (c.r(1, 0))
            sdp_bucket_sort(u, f, v, w, G, tu, tv, cell, 0, suu.m, svv.m, sw.m, st.m, sv.m, o1.m, c.st);
        else
            sdp_tiled_indexing(u, f, G, tu, tv, cell, 0, nc, nb, nt, st.m, suu.m, svv.m, si.m, o2.m, c.st);
        c.sketch(suu); c.sketch(svv); c.sketch(st); c.sketch(c.r(1, 0) ? sv : si); };
    reg["examples"] = [](C& c) {
        sdp_vector_add(c.in("a", 'R', {c.n(60, 70)}), c.in("b", 'R', {c.n(60, 70)}), c.out("o", 'R', {c.n(60, 70)}), c.st);
        sdp_Mem* o = c.out("s", 'S', {2 * c.q(3, 5)});
        const int k = c.q(3, 5);
        c.plan<sdp_FunctionExampleA>(key("a", {(double) k}), [=]() { sdp_Error e = SDP_SUCCESS; return sdp_function_example_a_create_plan(k, 2, 0.5f, &e); },
            [](sdp_FunctionExampleA* p) { sdp_function_example_a_free_plan(p); }, [&](sdp_FunctionExampleA* p) { sdp_function_example_a_exec(p, o, c.st); }); };
}

// ---------------------------------------------------------------- one call
static void call(C& c, int threads)
{
    auto it = reg.find(c.f);
    if (it == reg.end()) { fprintf(stderr, "no function %s\n", c.f.c_str()); _exit(97); }
    memset(&c.sk, 0, sizeof c.sk);
    omp_set_num_threads(threads);
    it->second(c);
    for (auto& o : c.outs) c.sketch(*o);
    c.sk.err = (int) c.e;
    for (auto& i : c.ins) if (C::hash(*i.first) != i.second) c.inputs_ok = false;
}
// The sketch as whole numbers, at the scale of the reference.
static std::vector<i64> numbers(const Sketch& s, const Sketch& ref)
{
    std::vector<i64> r;
    for (int k = 0; k < s.n; ++k)
    {
        const double scale = k < ref.n && ref.v[k][0] > 0 ? ref.v[k][0] : 1;
        r.push_back(qr(s.v[k][0] / scale, 1e9));
        r.push_back((i64) s.v[k][1]);
        for (int j = 0; j < NPROJ; ++j) r.push_back(qr(s.v[k][2 + j] / scale, 1e9));
    }
    return r;
}
struct Id { std::string f; char p; int v; };
static std::string name(const Id& i) { return i.f + "/" + i.p + "/" + std::to_string(i.v); }

static void run(Rng& r, Out& out)
{
    build();
    const std::vector<Op>& ops = scripts[out.idx];
    // The references, each from a process of its own.
    std::map<std::string, int> at;
    std::vector<Id> ids;
    for (const Op& o : ops)
    {
        const Id i = {o.a.at("f"), o.a.at("p")[0], atoi(o.a.at("v").c_str())};
        if (at.count(name(i))) continue;
        at[name(i)] = (int) ids.size();
        ids.push_back(i);
    }
    Sketch* ref = (Sketch*) mmap(0, sizeof(Sketch) * ids.size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (size_t k = 0; k < ids.size(); ++k)
    {
        const pid_t pid = fork();
        if (pid == 0)
        {
            C c; c.f = ids[k].f; c.prec = ids[k].p; c.v = ids[k].v; c.reuse = false;
            call(c, 1);
            ref[k] = c.sk;
            _exit(c.inputs_ok ? 0 : 94);
        }
        int ws = 0;
        waitpid(pid, &ws, 0);
        if (ws) _exit(WIFEXITED(ws) ? WEXITSTATUS(ws) : 93);
        out.put(J().t("e", "Ref").t("f", ids[k].f).t("p", std::string(1, ids[k].p)).n("v", ids[k].v)
                .n("err", ref[k].err).a("sk", numbers(ref[k], ref[k])));
    }
#ifndef TSAN
    mallopt(M_PERTURB, (int) r.in(1, 255));
#endif
    // The log level is read from the environment by the first message: let it be read now.
    sdp_log_message(SDP_LOG_LEVEL_DEBUG, stderr, "", "", 0, "%s", "");
    // The calls of one batch run at the same time.
    std::mutex emit;
    for (size_t b = 0; b < ops.size();)
    {
        size_t e = b;
        while (e < ops.size() && ops[e].a.at("b") == ops[b].a.at("b")) ++e;
        std::vector<std::thread> th;
        int ready = 0;
        auto work = [&](size_t k) {
            const Op& o = ops[k];
            const Id i = {o.a.at("f"), o.a.at("p")[0], atoi(o.a.at("v").c_str())};
            const int t = (int) (k - b) + 1, many = atoi(o.a.at("omp").c_str()), used = atoi(o.a.at("used").c_str());
            __atomic_add_fetch(&ready, 1, __ATOMIC_RELAXED);
            while (__atomic_load_n(&ready, __ATOMIC_RELAXED) < (int) (e - b)) std::this_thread::yield();
            for (int again = 0; again < (e - b > 1 ? 2 : 1); ++again)
            {
                J j;
                j.t("e", "Start").n("t", t).t("f", i.f).t("p", std::string(1, i.p)).n("v", i.v).n("omp", many).n("used", used);
                { std::lock_guard<std::mutex> g(emit); out.put(j); }
                C c; c.f = i.f; c.prec = i.p; c.v = i.v; c.reuse = used;
                call(c, many);
                J x;
                x.t("e", "End").n("t", t).n("err", c.sk.err).n("inputs", c.inputs_ok)
                 .a("sk", numbers(c.sk, ref[at.at(name(i))]));
                { std::lock_guard<std::mutex> g(emit); out.put(x); }
            }
        };
        if (e - b == 1) work(b);
        else for (size_t k = b; k < e; ++k) th.emplace_back(work, k);
        for (auto& t : th) t.join();
        b = e;
    }
    for (auto& p : plans) p->free(p->p);
    out.put(J().t("e", "Done"));
}
int main(int argc, char** argv)
{
    if (argc > 1 && !strcmp(argv[1], "list")) // For building the specification's table.
    {
        build();
        for (auto& kv : reg) for (char p : {'d', 's'})
        {
            Sketch* a = (Sketch*) mmap(0, sizeof(Sketch) * 6, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            std::string differ;
            for (int v = 0; v < 6; ++v)
            {
                fflush(stdout);
                if (fork() == 0)
                {
                    C c; c.f = kv.first; c.prec = p; c.v = v; c.reuse = false;
                    call(c, 1); a[v] = c.sk; _exit(c.inputs_ok ? 0 : 1);
                }
                int ws; wait(&ws);
                if (ws) printf("%s %c %d FAILED %d\n", kv.first.c_str(), p, v, ws);
                if (a[v].err) printf("%s %c %d error %d\n", kv.first.c_str(), p, v, a[v].err);
                bool nf = false;
                for (int k = 0; k < a[v].n; ++k) if (a[v].v[k][1] || a[v].v[k][0] == 0) nf = true;
                if (nf) printf("%s %c %d not finite or zero\n", kv.first.c_str(), p, v);
                if (v == 0 || memcmp(&a[0], &a[v], sizeof(Sketch))) differ += std::to_string(v);
            }
            printf("%s %c: %s\n", kv.first.c_str(), p, differ.c_str());
        }
        return 0;
    }
    return script_main(argc, argv, run);
}
