// (De)gridding of whole observations by w-stacking with w-towers, with several threads
// whose steps are made to coincide.
#include "arr.h"
#include <atomic>
#include <chrono>
#include <dlfcn.h>
#include <map>
#include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/grid_data/sdp_grid_wstack_wtower.h"

static const sdp_MemType D = SDP_MEM_DOUBLE, F = SDP_MEM_FLOAT, CD = SDP_MEM_COMPLEX_DOUBLE,
        CF = SDP_MEM_COMPLEX_FLOAT;

// ---------------------------------------------------------------- schedule
// The functions the workers call one after the other are passed on to the library, but a
// thread first (or then) waits a little for another one to get to the same place. Nothing
// else changes, so whatever protects the workers from each other still does.
static std::atomic<int> arrivals[8];
static int where = 0;       // bit mask of the places
static int wait_us = 0;
static std::atomic<i64> budget_us;      // of waiting, per case
static std::atomic<int> adding, overlap;
static void meet(int place)
{
    if (!(where & (1 << place))) return;
    const int mine = ++arrivals[place];
    if (mine % 2 == 0) return;      // someone is waiting for this one
    if (budget_us.load() < 0) return;
    const auto t0 = std::chrono::steady_clock::now();
    i64 us = 0;
    while (arrivals[place].load() == mine && us <= wait_us)
        us = (i64) std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
    budget_us -= us;
}
template<typename Fn> static Fn real(const char* name) { return (Fn) dlsym(RTLD_NEXT, name); }
#define REAL(f) static auto fn = real<decltype(&f)>(#f)
extern "C" {
void sdp_gridder_clamp_channels_uv(const sdp_Mem* a, double b, double c, const sdp_Mem* d,
        const sdp_Mem* e, double f, double g, double h, double i, sdp_Mem* j, sdp_Mem* k,
        int64_t l, int64_t m, sdp_Error* n)
{
    REAL(sdp_gridder_clamp_channels_uv);
    fn(a, b, c, d, e, f, g, h, i, j, k, l, m, n);
    meet(0);
}
void sdp_gridder_sum_diff(const sdp_Mem* a, const sdp_Mem* b, int64_t* c, int64_t d, int64_t e, sdp_Error* f)
{
    REAL(sdp_gridder_sum_diff);
    fn(a, b, c, d, e, f);
    meet(1);
}
void sdp_gridder_subgrid_add(sdp_Mem* a, int b, int c, const sdp_Mem* d, double e, sdp_Error* f)
{
    REAL(sdp_gridder_subgrid_add);
    if (++adding > 1) overlap = 1;
    meet(2);
    if (adding > 1) overlap = 1;
    fn(a, b, c, d, e, f);
    --adding;
    meet(3);
}
void sdp_gridder_subgrid_cut_out(const sdp_Mem* a, int b, int c, sdp_Mem* d, sdp_Error* e)
{
    REAL(sdp_gridder_subgrid_cut_out);
    meet(4);
    fn(a, b, c, d, e);
    meet(5);
}
void sdp_gridder_wtower_uvw_degrid(sdp_GridderWtowerUVW* a, const sdp_Mem* b, int c, int d, int e,
        double f, double g, const sdp_Mem* h, const sdp_Mem* i, const sdp_Mem* j, sdp_Mem* k,
        int64_t l, int64_t m, sdp_Error* n)
{
    REAL(sdp_gridder_wtower_uvw_degrid);
    meet(6);
    fn(a, b, c, d, e, f, g, h, i, j, k, l, m, n);
    meet(7);
}
void sdp_gridder_wtower_uvw_grid(sdp_GridderWtowerUVW* a, const sdp_Mem* b, const sdp_Mem* c,
        const sdp_Mem* d, const sdp_Mem* e, double f, double g, sdp_Mem* h, int i, int j, int k,
        int64_t l, int64_t m, sdp_Error* n)
{
    REAL(sdp_gridder_wtower_uvw_grid);
    meet(6);
    fn(a, b, c, d, e, f, g, h, i, j, k, l, m, n);
    meet(7);
}
}

// ---------------------------------------------------------------- cases
struct Case { i64 N, S, eff, T, ws, sup, wsup, ov, wov, h2, hu, hv; double frac; };
static const i64 DD = 64;

// Sub-grids wide enough for the kernel and for what the tower's height spreads.
static Case geometry(Rng& r)
{
    for (;;)
    {
        Case c;
        c.sup = r.pick({6, 8, 8, 8});
        c.wsup = r.chance(1, 4) ? 8 : c.sup;
        c.N = r.pick({40, 48, 50, 64, 72, 80, 96, 100});
        c.S = r.pick({20, 24, 32, 36, 40});
        c.frac = r.pick({0.0, 0.4, 0.5, 0.6, 2.0 / 3.0, 0.75});
        c.T = r.pick({4, 5, 10, 20});
        c.ws = r.pick({1, 2, 4, 10, 20});
        c.h2 = r.pick({2, 4, 4, 6, 8, 12, 5});
        c.hu = c.hv = 0;
        if (r.chance(1, 4)) { c.hu = r.in(-3, 3) * 50000; c.hv = r.in(-3, 3) * 50000; }
        c.ov = r.pick({256, 1024, 4096});
        c.wov = r.pick({256, 1024, 4096});
        c.eff = (i64) std::floor(c.S * (c.frac == 0 ? 2.0 / 3.0 : c.frac));
        if (c.S > c.N) continue;
        const double th = 1.0 / c.T, sh = std::max(std::fabs(c.hu * 1e-6), std::fabs(c.hv * 1e-6));
        const double slope = th / 2 * 1.1 + sh, reach = c.h2 * 0.25 * c.ws * slope * th;
        if (reach + 1 > (c.S - c.eff) / 2.0 - c.sup / 2.0) continue;
        if (c.ws * (th * th / 4 + th / 2 * sh * 2) > 0.3) continue;
        return c;
    }
}
// Two threads were seen adding to the grid at the same time: does that lose anything?
static bool adding_loses()
{
    Arr g(CD, {64, 64}), one(CD, {64, 64});
    one.fill([](i64) { return cd(1); });
    i64 want = 0;
    for (int round = 0; round < 60; ++round)
    {
        sdp_Error st = SDP_SUCCESS;
        #pragma omp parallel for num_threads(8) schedule(static, 1)
        for (int t = 0; t < 8 * 40; ++t)
            sdp_gridder_subgrid_add(g.m, 0, 0, one.m, 1.0, &st);
        want += 8 * 40;
        for (i64 i = 0; i < g.n; ++i) if (g.re(i) != (double) want) return true;
    }
    return false;
}
// Every value as an integer, no bigger than 2e6.
static i64 scale_for(i64 big)
{
    i64 sc = 100000;
    while (sc > 1 && big * sc > 2000000) sc /= 10;
    return sc;
}

static void run(Rng& r, Out& out)
{
    const Case c = geometry(r);
    const bool grid = r.chance(1, 2), large = r.chance(1, 2);
    const int kind = (int) r.in(0, 4); // 0-2: all double; 3: float with double uvw; 4: float
    const sdp_MemType VT = kind < 3 ? CD : CF, UT = kind < 4 ? D : F;
    const bool many = !large && r.chance(1, 3);
    const i64 K = many ? r.in(20, 40) : r.in(1, large ? 4 : 6), nch = many ? 1 : r.in(1, 3), f0 = 8, df = r.in(0, 2);
    i64 rows = K;
    if (large) rows = r.in(2000, 9000) / nch;
    const i64 q = c.N / 4, half = (i64) (c.N * 0.35), eff = c.eff;
    // Distinct coordinates, in 1/DD of a cell of the grid or of a w-plane, before scaling.
    std::vector<i64> base;
    std::vector<double> val;
    const bool edges = !large && r.chance(1, 3);
    const bool onetile = large && r.chance(1, 2);
    for (i64 k = 0; k < K; ++k)
        for (int j = 0; j < 3; ++j)
        {
            i64 nd = r.in(-1, 1), bb;
            if (j < 2)
            {
                i64 room = onetile ? eff / 2 - 1 : half;
                bb = r.in(-room * DD, room * DD) / (f0 + df);
                if (!onetile && (edges || r.chance(1, 3))) bb = (2 * r.in(-2, 1) + 1) * eff * DD / 16;  // edge of a sub-grid
                if (r.chance(1, 8)) bb = 0;
            }
            else
            {
                bb = r.in(-5 * c.h2 * DD / 2, 5 * c.h2 * DD / 2) / f0;
                if (onetile) bb = r.in(-c.h2 * DD / 5, c.h2 * DD / 5) / (f0 + 2 * df);
                else if (r.chance(1, 3)) bb = (2 * r.in(-2, 1) + 1) * c.h2 * DD / 32;    // edge of a tower
                if (r.chance(1, 8)) bb = 0;
                nd = 1;     // never just below a plane: see the findings of P18
                if (UT == F)
                    while (true)
                    {
                        bool bad = false;
                        for (i64 ch = 0; ch < nch; ++ch) if (bb && (bb * (f0 + ch * df)) % DD == 0) bad = true;
                        if (!bad) break;
                        ++bb;
                    }
            }
            if (UT == F || (edges && j < 2)) nd = 0;
            base.push_back(bb);
            val.push_back((bb + nd * 1e-6) / (double) DD * (j < 2 ? c.T : c.ws));
        }
    std::vector<i64> pat(rows);
    const int order = (int) r.in(0, 2);
    for (i64 i = 0; i < rows; ++i)
        pat[i] = i < K ? i : order == 0 ? i % K : order == 1 ? i * K / rows : r.in(0, K - 1);
    Arr uvw(UT, {rows, 3}, (int) r.in(0, 3)), vis(VT, {rows, nch}, (int) r.in(0, 3));
    for (i64 i = 0; i < rows; ++i) for (int j = 0; j < 3; ++j) uvw.set(3 * i + j, val[3 * pat[i] + j]);
    const bool real_img = r.chance(1, 3);
    Arr img(real_img ? (VT == CD ? D : F) : VT, {c.N, c.N}, (int) r.in(0, 3));
    std::vector<i64> src, vs(2 * K * nch, 0);
    i64 sum = 0, big = 1;
    auto at = [&](i64 p, i64 s) { return (p + c.N / 2) * c.N + s + c.N / 2; };
    if (grid)
    {
        // Mostly small values; larger ones about where rows may be divided.
        const i64 small = rows > 3000 ? 1 : 2;
        for (i64 i = 0; i < rows; ++i)
            for (i64 ch = 0; ch < nch; ++ch)
            {
                i64 a, b;
                if (!large) { a = r.in(-9, 9); b = r.in(-9, 9); }
                else { a = r.in(0, small); b = r.in(-small, small); }
                if (large) for (i64 k = 1; k <= 8; ++k)
                {
                    const i64 per = (rows + k - 1) / k, m = i % per;
                    if (m == 0 || m == per - 1 || i == rows - 1) { a = r.in(4, 9); b = r.in(-9, 9); }
                }
                vis.set(i * nch + ch, cd((double) a, (double) b));
                vs[2 * (pat[i] * nch + ch)] += a;
                vs[2 * (pat[i] * nch + ch) + 1] += b;
                sum += std::llabs(a) + std::llabs(b);
            }
        for (i64 v : vs) big = std::max<i64>(big, std::llabs(v));
        img.fill([&](i64) { return r.chance(1, 2) ? cd(r.in(-9, 9), 0) : cd(0); });
    }
    else
    {
        img.fill([](i64) { return cd(0); });
        const i64 ns = r.in(1, 3);
        for (i64 k = 0; k < ns; ++k)
        {
            const i64 a = r.in(-q, q), b = r.in(-q, q), re = r.in(-9, 9), im = real_img || r.chance(1, 2) ? 0 : r.in(-9, 9);
            for (i64 v : {a, b, re, im}) src.push_back(v);
            img.set(at(a, b), img.get(at(a, b)) + cd((double) re, (double) im));
            sum += std::llabs(re) + std::llabs(im);
        }
        big = 9;
        vis.fill([&](i64) { return cd(r.in(-9, 9), r.in(-9, 9)); });
    }
    const i64 sc = scale_for(grid ? std::max(big, sum / 100 + 1) : big);
    uvw.take();
    if (grid) vis.take(); else img.take();
    const int threads = (int) r.pick({1, 2, 2, 3, 4, 5, 8, 0, -1});
    if (threads != 1)
    {
        where = r.chance(1, 4) ? 255 : 1 << r.in(0, 7);
        if (r.chance(1, 2)) where |= 1 << (grid ? 2 : 5);
        if (many) where |= 2;
        wait_us = (int) r.pick({20, 1000, 20000});
        budget_us = 200000;
    }
    sdp_Error st = SDP_SUCCESS;
    const int verbosity = r.chance(1, 6) ? (int) r.in(1, 2) : 0;
    if (grid)
        sdp_grid_wstack_wtower_grid_all(vis.m, f0 * C0, df * C0, uvw.m, (int) c.S, 1.0 / c.T,
                (double) c.ws, c.hu * 1e-6, c.hv * 1e-6, (int) c.sup, (int) c.ov, (int) c.wsup, (int) c.wov,
                c.frac, c.h2 / 2.0, verbosity, img.m, threads, &st);
    else
        sdp_grid_wstack_wtower_degrid_all(img.m, f0 * C0, df * C0, uvw.m, (int) c.S, 1.0 / c.T,
                (double) c.ws, c.hu * 1e-6, c.hv * 1e-6, (int) c.sup, (int) c.ov, (int) c.wsup, (int) c.wov,
                c.frac, c.h2 / 2.0, verbosity, vis.m, threads, &st);
    where = 0;
    const int lost = overlap && adding_loses();
    const bool same = uvw.same() && uvw.gaps_ok() && vis.gaps_ok() && img.gaps_ok() && (grid ? vis.same() : img.same());
    std::vector<i64> pix, got;
    if (grid)
        for (int k = 0; k < 8; ++k)
        {
            const i64 a = k ? r.in(-q, q) : 0, b = k ? r.in(-q, q) : 0;
            pix.push_back(a); pix.push_back(b);
            const cd v = img.get(at(a, b));
            got.push_back(qr(v.real(), (double) sc)); got.push_back(qr(v.imag(), (double) sc));
        }
    else
        // Lowest and highest of the visibilities of each kind.
        for (i64 k = 0; k < K; ++k)
            for (i64 ch = 0; ch < nch; ++ch)
            {
                i64 lo[2] = {Q_BIG, Q_BIG}, hi[2] = {-Q_BIG, -Q_BIG};
                for (i64 i = 0; i < rows; ++i) if (pat[i] == k)
                {
                    const cd v = vis.get(i * nch + ch);
                    const i64 z[2] = {qr(v.real(), (double) sc), qr(v.imag(), (double) sc)};
                    for (int j = 0; j < 2; ++j) { lo[j] = std::min(lo[j], z[j]); hi[j] = std::max(hi[j], z[j]); }
                }
                for (i64 v : {lo[0], lo[1], hi[0], hi[1]}) got.push_back(v);
            }
    J j;
    j.t("e", grid ? "Grid" : "Degrid").n("N", c.N).n("S", c.S).n("eff", c.eff).n("T", c.T).n("ws", c.ws).n("h2", c.h2)
        .n("sup", std::min(c.sup, c.wsup)).n("ov", c.ov).n("wov", c.wov).n("D", DD).n("hu", c.hu).n("hv", c.hv)
        .n("K", K).n("nch", nch).n("rows", rows).n("f0", f0).n("df", df).n("threads", threads).n("flt", VT == CF)
        .n("real", real_img).a("uvw", base).a("src", src).a("vs", vs).a("pix", pix).n("sum", sum).n("sc", sc)
        .a("got", got).n("lost", lost).n("err", st).n("same", same);
    out.put(j);
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"run", run, 1}}); }
