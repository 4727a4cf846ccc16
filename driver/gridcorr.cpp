// Grid correction: division of a facet by the gridding kernel's image and the w-stack phase.
#include "arr.h"
#include "sci.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"

static const sdp_MemType D = SDP_MEM_DOUBLE, F = SDP_MEM_FLOAT, CD = SDP_MEM_COMPLEX_DOUBLE,
        CF = SDP_MEM_COMPLEX_FLOAT;
static bool cpx(sdp_MemType t) { return t == CD || t == CF; }
// Depth of direction (l, m) on the sheared sphere, by bisection.
static double depth(double l, double m, double hu, double hv)
{
    double lo = -0.7, hi = 1e-3;
    for (int i = 0; i < 60; ++i)
    {
        const double n = 0.5 * (lo + hi), a = l - hu * n, b = m - hv * n;
        (a * a + b * b + n * n + 2 * n <= 0 ? lo : hi) = n;
    }
    return lo;
}
static void run(Rng& r, Out& out)
{
    const int which = (int) r.in(0, 5); // 0, 1 pswf; 2 w stack; 3 direct plan; 4, 5 w-towers plan
    const i64 N = r.in(4, 24) * (r.chance(1, 4) ? 1 : 2), T = r.pick({2, 3, 5, 10, 50}), ws = r.in(1, 12);
    const i64 support = r.in(2, 10), wsup = which == 3 || (which < 3 && r.chance(1, 3)) ? 0 : r.in(2, 8);
    i64 hu = 0, hv = 0;
    if (r.chance(1, 3)) { hu = r.in(-3, 3) * 50000; hv = r.in(-3, 3) * 50000; }
    const i64 nl = r.in(1, std::min<i64>(N, 7)), nm = r.in(1, std::min<i64>(N, 7));
    // The facet lies inside the image.
    const i64 fl = r.in(-(N / 2) + nl / 2, N - 1 - N / 2 + nl / 2 - (nl - 1));
    const i64 fm = r.in(-(N / 2) + nm / 2, N - 1 - N / 2 + nm / 2 - (nm - 1));
    const i64 woff = r.chance(1, 4) ? 0 : r.in(-6, 6);
    const int inv = (int) r.in(0, 1);
    const sdp_MemType t = r.pick({D, F, CD, CF, CD, CF, SDP_MEM_INT});
    Arr a(t, {nl, nm}, (int) r.pick({0, 0, 1, 2, 3, 4}));
    a.fill([&](i64) { return cd(r.in(-9, 9), r.in(-9, 9)); });
    std::vector<i64> pre, post, tl, tm, wn, fin;
    auto pairs = [&](std::vector<i64>& v) { for (i64 i = 0; i < a.n; ++i) { v.push_back(qx(a.get(i).real())); v.push_back(qx(a.get(i).imag())); } };
    pairs(pre);
    sdp_Error st = SDP_SUCCESS;
    const double theta = 1.0 / T;
    if (which < 2)
        sdp_gridder_grid_correct_pswf((int) N, theta, (double) ws, hu * 1e-6, hv * 1e-6, (int) support, (int) wsup,
                a.m, (int) fl, (int) fm, &st);
    else if (which == 2)
        sdp_gridder_grid_correct_w_stack((int) N, theta, (double) ws, hu * 1e-6, hv * 1e-6, a.m,
                (int) fl, (int) fm, (int) woff, inv, &st);
    else if (which == 3)
    {
        sdp_GridderDirect* p = sdp_gridder_direct_create((int) N, 4, theta, (double) ws, hu * 1e-6, hv * 1e-6, (int) support, &st);
        if (inv) sdp_gridder_direct_grid_correct(p, a.m, (int) fl, (int) fm, (int) woff, &st);
        else sdp_gridder_direct_degrid_correct(p, a.m, (int) fl, (int) fm, (int) woff, &st);
        sdp_gridder_direct_free(p);
    }
    else
    {
        sdp_GridderWtowerUVW* p = sdp_gridder_wtower_uvw_create((int) N, 4, theta, (double) ws, hu * 1e-6, hv * 1e-6,
                (int) support, 8, (int) wsup, 8, &st);
        if (inv) sdp_gridder_wtower_uvw_grid_correct(p, a.m, (int) fl, (int) fm, (int) woff, &st);
        else sdp_gridder_wtower_uvw_degrid_correct(p, a.m, (int) fl, (int) fm, (int) woff, &st);
        sdp_gridder_wtower_uvw_free(p);
    }
    for (i64 i = 0; i < a.n; ++i) { sci(post, a.get(i).real()); sci(post, a.get(i).imag()); }
    // The kernel images, from the evaluation function (which P23 specifies).
    sdp_Pswf* q = sdp_pswf_create(0, support * (M_PI / 2));
    sdp_Pswf* w = sdp_pswf_create(0, wsup * (M_PI / 2));
    for (int ax = 0; ax < 2; ++ax)
        for (i64 i = 0; i < (ax ? nm : nl); ++i)
        {
            const i64 p = i - (ax ? nm : nl) / 2 + (ax ? fm : fl);
            sci(ax ? tm : tl, sdp_pswf_evaluate(q, 2.0 * p / N));
        }
    for (i64 i = 0; i < nl; ++i)
        for (i64 j = 0; j < nm; ++j)
        {
            const double l = (i - nl / 2 + fl) * theta / N, m = (j - nm / 2 + fm) * theta / N;
            const double x = 2 * ws * std::fabs(depth(l, m, hu * 1e-6, hv * 1e-6));
            wn.push_back(x < 1 ? std::min<i64>(qr(x, 1e6), 999999) : std::max<i64>(qr(x, 1e6), 1000000));
            sci(wn, sdp_pswf_evaluate(w, std::min(x, 0.9999999)));
        }
    sdp_pswf_free(q); sdp_pswf_free(w);
    out.put(J().t("e", which < 2 ? "Pswf" : which == 2 ? "Stack" : "Plan").n("N", N).n("T", T).n("ws", ws).n("hu", hu).n("hv", hv)
            .n("wsup", wsup).n("nl", nl).n("nm", nm).n("fl", fl).n("fm", fm).n("woff", woff).n("inv", inv)
            .n("int", t == SDP_MEM_INT).n("cpx", cpx(t)).n("dbl", t == D || t == CD).a("pre", pre).a("post", post)
            .a("tl", tl).a("tm", tm).a("wn", wn).n("gaps", a.gaps_ok()).n("err", st));
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"run", run, 1}}); }
