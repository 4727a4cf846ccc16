// The height of a w-tower, and the image its accuracy is judged by. The driver measures
// the error of the gridder at each distance itself, with the functions that have
// properties of their own.
#include "arr.h"
#include <array>
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_height.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"

struct Par
{
    int n, sg, sup, ov, wsup, wov, p, ns;
    double theta, ws, hu, hv, frac;
};


struct Acc
{
    const Par& q;
    sdp_Error st = SDP_SUCCESS;
    sdp_GridderWtowerUVW* k;
    std::vector<std::array<double, 4>> src;
    sdp_Mem* sub = 0;
    Acc(const Par& q_) : q(q_)
    {
        k = sdp_gridder_wtower_uvw_create(q.n, q.sg, q.theta, q.ws, q.hu, q.hv, q.sup, q.ov, q.wsup, q.wov, &st);
        if (st) return;
        Arr img(SDP_MEM_COMPLEX_DOUBLE, {q.n, q.n}), sg(SDP_MEM_COMPLEX_DOUBLE, {q.sg, q.sg});
        img.fill([](i64) { return cd(0); });
        int e = (int) ((i64) q.n * q.p / 2000);
        while (e > 1 && q.n % e == 0) e--;
        const int c = q.n / 2;
        const int at[4][3] = {{c + e, c + e, 3}, {c - e, c - e, 2}, {c + e, c - e - 1, 3}, {c - e - 1, c + e, 2}};
        for (auto& a : at) img.set(a[0] * q.n + a[1], cd(a[2] / 10.0));
        // Where the sources are, and how bright.
        int64_t four = 4, sh[] = {4, 3};
        sdp_Mem* f = sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, &four, &st);
        sdp_Mem* l = sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, sh, &st);
        sdp_gridder_image_to_flmn(img.m, q.theta, q.hu, q.hv, 0, f, l, &st);
        for (int i = 0; i < 4; ++i)
        {
            const double* x = (const double*) sdp_mem_data(l) + 3 * i;
            src.push_back({((const double*) sdp_mem_data(f))[i], x[0], x[1], x[2]});
        }
        sdp_mem_free(f); sdp_mem_free(l);
        sdp_gridder_wtower_uvw_degrid_correct(k, img.m, 0, 0, 0, &st);
        sdp_Fft* a = sdp_fft_create(img.m, img.m, 2, 1, &st);
        sdp_fft_phase(img.m, &st); sdp_fft_exec(a, img.m, img.m, &st); sdp_fft_phase(img.m, &st);
        sdp_fft_free(a);
        int64_t ss[] = {q.sg, q.sg};
        sub = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU, 2, ss, &st);
        sdp_gridder_subgrid_cut_out(img.m, 0, 0, sub, &st);
        sdp_Fft* b = sdp_fft_create(sub, sub, 2, 0, &st);
        sdp_fft_phase(sub, &st); sdp_fft_exec(b, sub, sub, &st); sdp_fft_phase(sub, &st);
        sdp_fft_norm(sub, &st);
        sdp_fft_free(b);
    }
    ~Acc() { sdp_gridder_wtower_uvw_free(k); sdp_mem_free(sub); }
    double at(double w)
    {
        const int ns = q.ns ? q.ns : 3;
        const double frac = q.frac ? q.frac : 2.0 / 3.0, r = q.sg * frac / q.theta / 2;
        const i64 rows = ns * ns;
        Arr uvw(SDP_MEM_DOUBLE, {rows, 3}), s(SDP_MEM_INT, {rows}), e(SDP_MEM_INT, {rows}), v(SDP_MEM_COMPLEX_DOUBLE, {rows, 1});
        for (i64 i = 0; i < rows; ++i)
        {
            uvw.set(3 * i, cd(-r + (i % ns) * 2 * r / std::max(1, ns - 1)));
            uvw.set(3 * i + 1, cd(-r + (i / ns) * 2 * r / std::max(1, ns - 1)));
            uvw.set(3 * i + 2, cd(w));
        }
        s.fill([](i64) { return cd(0); });
        e.fill([](i64) { return cd(1); });
        v.fill([](i64) { return cd(0); });
        sdp_gridder_wtower_uvw_degrid(k, sub, 0, 0, 0, C0, C0, uvw.m, s.m, e.m, v.m, -1, -1, &st);
        double sum = 0;
        for (i64 i = 0; i < rows; ++i)
        {
            cd ref = 0;
            for (auto& x : src)
                ref += std::polar(x[0], -2 * M_PI * (uvw.get(3 * i).real() * x[1] + uvw.get(3 * i + 1).real() * x[2] + w * x[3]));
            sum += std::norm(v.get(i) - ref);
        }
        return std::sqrt(sum / rows);
    }
};

static void height(Rng& r, Out& out)
{
    Par q;
    q.sg = (int) r.pick<i64>({12, 16, 20, 24, 32});
    q.n = (int) (r.chance(2, 3) ? 2 * q.sg : q.sg + r.in(4, 40));
    q.sup = (int) r.pick<i64>({4, 6, 8}); q.ov = (int) r.pick<i64>({64, 1024, 4096});
    q.wsup = (int) r.pick<i64>({4, 6, 8}); q.wov = (int) r.pick<i64>({64, 1024, 4096});
    q.ns = (int) r.pick<i64>({0, 1, 2, 3, 3, 4, 5});
    q.theta = r.pick({0.01, 0.05, 0.1, 0.2, 0.3});
    const bool shear = r.chance(1, 3);
    q.hu = shear ? r.pick({0.0, 0.05, -0.1}) : 0; q.hv = shear ? r.pick({0.02, -0.07, 0.1}) : 0;
    q.frac = r.pick({0.0, 2.0 / 3.0, 0.5, 0.75});
    do q.p = (int) r.in(400, 850); while (q.n * q.p % 2000 < 20 || q.n * q.p % 2000 > 1980);
    const double fov = q.theta * q.p / 1000;
    q.ws = sdp_gridder_determine_w_step(q.theta, fov, q.hu, q.hv, 0) * r.pick({1.0, 1.0, 0.7, 2.0});
    const bool bad = r.chance(1, 15);
    sdp_Error st = SDP_SUCCESS, pre = r.chance(1, 20) ? (sdp_Error) r.in(1, 6) : SDP_SUCCESS;
    if (bad)
    {
        // An odd sub-grid, or a field of view too small for the sources.
        const bool odd = r.chance(1, 2);
        if (odd) q.sg += 1;
        st = pre;
        const double h = sdp_gridder_determine_max_w_tower_height(q.n, q.sg, q.theta, q.ws, q.hu, q.hv, q.sup, q.ov,
                q.wsup, q.wov, odd ? fov : q.theta / q.n * r.pick({0.5, 1.5, 0.0}), q.frac, q.ns, r.pick({0.0, 1e-4}), &st);
        out.put(J().t("e", "Height").n("pre", pre).n("bad", 1).n("err", st).n("ret", qx(h)).a("good", std::vector<i64>()));
        return;
    }
    Acc a(q);
    std::vector<double> err;
    for (int k = 0; k <= 70; ++k) err.push_back(a.at(k * q.ws));
    if (a.st) { fprintf(stderr, "probe failed %d\n", (int) a.st); _exit(97); }
    double target = 0, t = 2 * err[0];
    if (r.chance(1, 2))
    {
        const int k = (int) r.in(0, r.chance(1, 2) ? 30 : 8);
        t = target = (err[k] + err[k + 1]) / 2;
    }
    // Beyond what was measured the search could go on for ever.
    std::vector<i64> good;
    int last = 0;
    for (int k = 1; k <= 70; ++k)
    {
        good.push_back(std::fabs(err[k] / t - 1) < 1e-6 ? 2 : err[k] < t);
        if (!good.back()) last = k;
    }
    if (!last) return;
    // The search itself, to see that it ends.
    int at = 1, by = 1; bool fast = true;
    while (at <= 70)
    {
        if (good[at - 1]) { if (fast) by *= 2; else if (by > 1) by /= 2; else break; at += by; }
        else if (by > 1) { by /= 2; at -= by; fast = false; }
        else break;
    }
    if (at > 70) return;
    st = pre;
    const double h = sdp_gridder_determine_max_w_tower_height(q.n, q.sg, q.theta, q.ws, q.hu, q.hv, q.sup, q.ov,
            q.wsup, q.wov, fov, q.frac, q.ns, target, &st);
    out.put(J().t("e", "Height").n("pre", pre).n("bad", 0).n("n", q.n).n("sg", q.sg).n("p", q.p).n("err", st).n("ret", qx(h)).a("good", good));
}

static void worst(Rng& r, Out& out)
{
    const int n = (int) r.in(3, r.chance(1, 2) ? 12 : 80);
    int p;
    do p = (int) r.in(1, 1100); while (n * p % 2000 < 5 || n * p % 2000 > 1995);
    if (r.chance(1, 5)) p = 1000;
    const double theta = p == 1000 ? 0.5 : r.pick({0.01, 0.1, 0.3, 1.0});
    const int layout = (int) r.pick<i64>({0, 1, 2, 3, 4});
    Arr img(SDP_MEM_COMPLEX_DOUBLE, {n, n}, layout);
    img.fill([&](i64) { return cd(r.in(-5, 5), r.in(-5, 5)); });
    img.take();
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_worst_case_image(theta, theta * p / 1000, img.m, &st);
    std::vector<std::vector<i64>> src;
    if (!st) for (i64 i = 0; i < img.n; ++i) if (img.get(i) != cd(0) && src.size() < 9)
        src.push_back({i / n, i % n, img.get(i).imag() == 0 ? qx(img.get(i).real(), 10, 1e-9) : Q_INEXACT});
    out.put(J().t("e", "Worst").n("n", n).n("p", p).n("err", st).n("same", img.same()).n("gaps", img.gaps_ok()).aa("src", src));
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"height", height, 3}, {"worst", worst, 2}}, 15); }
