// Gridding building blocks.
#include "arr.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"

static const sdp_MemType D = SDP_MEM_DOUBLE, F = SDP_MEM_FLOAT, CD = SDP_MEM_COMPLEX_DOUBLE,
        CF = SDP_MEM_COMPLEX_FLOAT;
// Layouts that element views accept.
static int lay(Rng& r) { return (int) r.pick({0, 0, 1, 2, 3, 4}); }
static bool cpx(sdp_MemType t) { return t == CD || t == CF; }
static std::vector<i64> qc(const Arr& a, double scale = 1.0, bool round = false)
{
    std::vector<i64> v;
    for (i64 i = 0; i < a.n; ++i)
    {
        const cd x = a.get(i);
        v.push_back(round ? qr(x.real(), scale) : qx(x.real(), scale));
        v.push_back(round ? qr(x.imag(), scale) : qx(x.imag(), scale));
    }
    return v;
}
static cd val(Rng& r, int lim, int density = 10)
{
    return r.in(1, 10) <= density ? cd((double) r.in(-lim, lim), (double) r.in(-lim, lim)) : cd(0);
}
static void accum(Rng& r, Out& out)
{
    const i64 n0 = r.in(1, 6), n1 = r.in(1, 6);
    const sdp_MemType to = r.pick({D, F, CD, CF}), t1 = cpx(to) ? r.pick({D, F, CD, CF}) : r.pick({CD, CF});
    const bool has2 = r.chance(3, 4);
    Arr o(to, {n0, n1}, lay(r)), a(t1, {n0, n1}, lay(r)), b(CD, {n0, n1}, lay(r));
    const int ex = (int) r.in(-2, 4);
    o.fill([&](i64) { return val(r, 50); });
    a.fill([&](i64) { return val(r, 20); });
    b.fill([&](i64) { return ex < 0 ? r.pick({cd(1, 0), cd(0, 1), cd(-1, 0), cd(0, -1)}) : val(r, 2); });
    // A real output takes the real part and no scaling.
    std::vector<i64> pre = qc(o);
    a.take(); b.take();
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_accumulate_scaled_arrays(o.m, a.m, has2 ? b.m : 0, ex, &st);
    out.put(J().t("e", "Accum").n("num", n0 * n1).n("exp", ex).n("has2", has2).n("real", !cpx(to))
            .a("pre", pre).a("a", qc(a)).a("b", qc(b)).n("err", st)
            .n("same", a.same() && b.same() && o.gaps_ok()).a("post", qc(o)));
}
static void scale(Rng& r, Out& out)
{
    const i64 n0 = r.in(1, 6), n1 = r.in(1, 6);
    const sdp_MemType to = r.pick({CD, CF});
    const sdp_MemType t1 = to == CD ? r.pick({D, CD}) : r.pick({F, CF});
    Arr o(to, {n0, n1}, lay(r)), a(t1, {n0, n1}, lay(r)), b(CD, {n0, n1}, lay(r));
    const int ex = (int) r.in(0, 4);
    o.fill([&](i64) { return val(r, 50); });
    a.fill([&](i64) { return val(r, 20); });
    b.fill([&](i64) { cd v = val(r, 2); return v == 0.0 ? cd(1, 1) : v; });
    a.take(); b.take();
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_scale_inv_array(o.m, a.m, b.m, ex, &st);
    out.put(J().t("e", "Scale").n("num", n0 * n1).n("exp", ex).a("a", qc(a)).a("b", qc(b)).n("err", st)
            .n("same", a.same() && b.same() && o.gaps_ok()).a("post", qc(o, 1000, true)));
}
static void count(Rng& r, Out& out)
{
    const i64 n0 = r.in(1, 9), n1 = r.chance(1, 2) ? n0 : r.in(1, 9);
    Arr a(r.pick({D, F, CD, CF}), {n0, n1}, lay(r));
    const int den = (int) r.in(0, 10);
    a.fill([&](i64) { return val(r, 3, den); });
    if (r.chance(1, 3)) a.set(r.in(0, a.n - 1), cd(0, 1));
    a.take();
    sdp_Error st = SDP_SUCCESS;
    const i64 c = sdp_gridder_count_nonzero_pixels(a.m, &st);
    out.put(J().t("e", "Count").n("num", n0 * n1).a("a", qc(a)).n("err", st).n("same", a.same()).n("res", c));
}
static void diff(Rng& r, Out& out)
{
    const i64 n0 = r.in(1, 9), n1 = r.in(1, 9);
    const sdp_MemType ta = r.pick({D, F, CD, CF});
    const sdp_MemType tb = ta == D ? r.pick({D, F}) : ta == CD ? r.pick({CD, CF}) : ta;
    Arr a(ta, {n0, n1}, lay(r)), b(tb, {n0, n1}, lay(r)), o(ta, {n0, n1}, lay(r));
    a.fill([&](i64) { return val(r, 50); });
    b.fill([&](i64) { return val(r, 50); });
    o.fill([&](i64) { return val(r, 50); });
    a.take(); b.take();
    sdp_Error st = SDP_SUCCESS;
    if (r.chance(1, 2))
    {
        sdp_gridder_residual(a.m, b.m, o.m, &st);
        out.put(J().t("e", "Diff").n("num", n0 * n1).a("a", qc(a)).a("b", qc(b)).n("err", st)
                .n("same", a.same() && b.same() && o.gaps_ok()).a("post", qc(o)));
    }
    else
    {
        const double x = sdp_gridder_rms_diff(a.m, b.m, &st);
        out.put(J().t("e", "Rms").n("num", n0 * n1).a("a", qc(a)).a("b", qc(b)).n("err", st)
                .n("same", a.same() && b.same()).n("res", qx(x * x * n0 * n1)));
    }
}
static void shift(Rng& r, Out& out)
{
    const i64 np = r.in(1, 6), n = r.in(1, 6);
    Arr a(r.pick({CD, CF}), {np, n, n}, lay(r));
    a.fill([&](i64) { return val(r, 90); });
    std::vector<i64> pre = qc(a);
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_shift_subgrids(a.m, &st);
    out.put(J().t("e", "Shift").n("np", np).n("num", n * n).a("pre", pre).n("err", st)
            .n("same", a.gaps_ok()).a("post", qc(a)));
}
static void place(Rng& r, Out& out)
{
    const i64 gu = r.in(1, 12), gv = r.chance(1, 2) ? gu : r.in(1, 12);
    const i64 su = r.in(1, std::min<i64>(gu, 7)), sv = r.in(1, std::min<i64>(gv, 7));
    const sdp_MemType t = r.pick({D, F, CD, CF});
    Arr g(t, {gu, gv}, lay(r)), s(t, {su, sv}, lay(r));
    g.fill([&](i64) { return val(r, 90); });
    s.fill([&](i64) { return val(r, 90); });
    const int lim = (int) r.pick({2, 10, 60});
    const int ou = (int) r.in(-lim, lim), ov = (int) r.in(-lim, lim);
    sdp_Error st = SDP_SUCCESS;
    if (r.chance(1, 2))
    {
        g.take();
        sdp_gridder_subgrid_cut_out(g.m, ou, ov, s.m, &st);
        out.put(J().t("e", "Cut").n("gu", gu).n("gv", gv).n("su", su).n("sv", sv).n("ou", ou).n("ov", ov)
                .a("grid", qc(g)).n("err", st).n("same", g.same() && s.gaps_ok()).a("post", qc(s)));
    }
    else
    {
        const int fac = (int) r.in(-3, 5);
        std::vector<i64> pre = qc(g);
        s.take();
        sdp_gridder_subgrid_add(g.m, ou, ov, s.m, fac, &st);
        out.put(J().t("e", "Add").n("gu", gu).n("gv", gv).n("su", su).n("sv", sv).n("ou", ou).n("ov", ov)
                .n("fac", fac).a("pre", pre).a("sub", qc(s)).n("err", st)
                .n("same", s.same() && g.gaps_ok()).a("post", qc(g)));
    }
}
static void sumdiff(Rng& r, Out& out)
{
    const i64 n = r.in(1, 40);
    Arr a(SDP_MEM_INT, {n}, (int) r.in(0, 3)), b(SDP_MEM_INT, {n}, (int) r.in(0, 3));
    a.fill([&](i64) { return r.in(-1000, 1000); });
    b.fill([&](i64) { return r.in(-1000, 1000); });
    i64 r0 = r.in(-1, n), r1 = r.in(-1, n), res = 77;
    a.take(); b.take();
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_sum_diff(a.m, b.m, &res, r0, r1, &st);
    out.put(J().t("e", "SumDiff").n("num", n).a("a", a.q()).a("b", b.q()).n("r0", r0).n("r1", r1)
            .n("err", st).n("same", a.same() && b.same()).n("res", res));
}
static void bounds(Rng& r, Out& out)
{
    const i64 n = r.in(1, 12), nch = r.in(1, 6);
    const sdp_MemType t = r.pick({D, F});
    Arr u(t, {n, 3}, lay(r)), s(SDP_MEM_INT, {n}, (int) r.in(0, 3)), e(SDP_MEM_INT, {n}, (int) r.in(0, 3));
    const int sg = (int) r.in(0, 2);
    u.fill([&](i64) { i64 x = r.in(-500, 500); return (double) (sg == 0 ? x : sg == 1 ? std::llabs(x) : -std::llabs(x)); });
    const int none = (int) r.pick({0, 3, 10});
    for (i64 i = 0; i < n; ++i)
    {
        i64 x = r.in(0, nch), y = r.in(1, 10) <= none ? r.in(0, x) : r.in(x, nch);
        s.set(i, x); e.set(i, y);
    }
    const i64 f0 = r.in(1, 9), df = r.in(0, 4);
    double mn[3] = {7, 7, 7}, mx[3] = {7, 7, 7};
    u.take(); s.take(); e.take();
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_uvw_bounds_all(u.m, f0 * C0, df * C0, s.m, e.m, mn, mx, &st);
    std::vector<i64> a, b;
    for (int j = 0; j < 3; ++j) { a.push_back(qx(mn[j])); b.push_back(qx(mx[j])); }
    out.put(J().t("e", "Bounds").n("num", n).n("nch", nch).a("uvw", u.q()).a("s", s.q()).a("t", e.q())
            .n("f0", f0).n("df", df).n("err", st).n("same", u.same() && s.same() && e.same())
            .a("min", a).a("max", b));
}
// Fields of view and shears in millionths.
static i64 theta6(Rng& r) { return r.pick({10000, 100000, 400000, 800000, 360360}); }
static void shear(Rng& r, i64& hu, i64& hv)
{
    hu = hv = 0;
    if (r.chance(1, 2)) { hu = r.in(-5, 5) * 50000; hv = r.in(-5, 5) * 50000; }
}
static void flmn(Rng& r, Out& out)
{
    const i64 nl = r.in(1, 9), nm = r.chance(1, 2) ? nl : r.in(1, 9);
    const sdp_MemType ti = r.pick({D, F, CD, CF});
    const sdp_MemType td = ti == F ? F : ti == CF ? r.pick({F, D}) : D;
    const i64 th = theta6(r);
    i64 hu, hv;
    shear(r, hu, hv);
    Arr img(ti, {nl, nm}, lay(r)), taper(D, {std::max(nl, nm)}, (int) r.in(0, 3));
    const int den = (int) r.in(0, 10);
    img.fill([&](i64) { return val(r, 9, den); });
    if (r.chance(1, 3)) img.set(r.in(0, img.n - 1), cd(0, 2));
    taper.fill([&](i64) { return r.in(1, 9); });
    const bool hf = r.chance(2, 3), ht = r.chance(1, 2);
    sdp_Error st = SDP_SUCCESS;
    i64 num = nl * nm;
    if (hf) { num = 0; for (i64 i = 0; i < img.n; ++i) num += img.get(i) != cd(0); }
    if (num == 0) { img.set(0, cd(1, 0)); num = 1; }
    Arr flux(D, {num}, (int) r.in(0, 3)), lmn(td, {num, 3}, lay(r));
    img.take(); taper.take();
    sdp_gridder_image_to_flmn(img.m, th * 1e-6, hu * 1e-6, hv * 1e-6, ht ? taper.m : 0, hf ? flux.m : 0, lmn.m, &st);
    out.put(J().t("e", "Flmn").n("nl", nl).n("nm", nm).n("num", num).n("theta", th).n("hu", hu).n("hv", hv)
            .n("hasflux", hf).n("hastaper", ht).a("taper", taper.q()).a("img", qc(img)).n("err", st)
            .n("same", img.same() && taper.same() && flux.gaps_ok() && lmn.gaps_ok())
            .a("flux", flux.q()).a("lmn", lmn.qround(1e6)));
}
static void pattern(Rng& r, Out& out)
{
    const i64 n = r.in(1, 8), th = theta6(r), ws = r.in(1, 20);
    i64 hu, hv;
    shear(r, hu, hv);
    Arr w(CD, {n, n}, lay(r));
    sdp_Error st = SDP_SUCCESS;
    sdp_gridder_make_w_pattern((int) n, th * 1e-6, hu * 1e-6, hv * 1e-6, (double) ws, w.m, &st);
    out.put(J().t("e", "Pattern").n("n", n).n("theta", th).n("hu", hu).n("hv", hv).n("wstep", ws)
            .n("err", st).n("same", w.gaps_ok()).a("post", qc(w, 1e6, true)));
}
static void kernel(Rng& r, Out& out)
{
    // ov * s divides the table size.
    const i64 s = r.in(1, 10), ov = r.pick({1, 2, 4, 7, 8, 14, 16});
    if (10080 % (s * ov)) return kernel(r, out);
    const sdp_MemType t = r.pick({D, F});
    Arr k(t, {ov + 1, s}, lay(r)), w(t, {s}, (int) r.in(0, 3));
    sdp_Error st = SDP_SUCCESS;
    std::vector<i64> win;
    const bool ps = r.chance(1, 3) && s > 1;
    if (ps)
    {
        const i64 sup = r.chance(2, 3) ? s : r.in(3, 12);
        double p0[16];
        Sh sh{s};
        sdp_Mem* p = sdp_mem_create_wrapper(p0, D, SDP_MEM_CPU, 1, sh.data(), 0, &st);
        for (int i = 0; i < 16; ++i) p0[i] = 0;
        sdp_generate_pswf(0, sup * (M_PI / 2), p, &st);
        sdp_mem_free(p);
        for (i64 i = 0; i < s; ++i) win.push_back(qr(p0[i], 1e6));
        sdp_gridder_make_pswf_kernel((int) sup, k.m, &st);
    }
    else
    {
        w.fill([&](i64) { i64 v = r.in(0, 1000); win.push_back(v * 1000); return v * 1e-3; });
        w.take();
        sdp_gridder_make_kernel(w.m, k.m, &st);
    }
    out.put(J().t("e", "Kernel").n("s", s).n("ov", ov).n("pswf", ps).a("win", win).n("err", st)
            .n("same", (ps || w.same()) && k.gaps_ok()).n("tol", 4).a("post", k.qround(1e6)));
}
static void wstep(Rng& r, Out& out)
{
    const i64 th = theta6(r), fov = th / 100 * r.in(40, 100) / 2 * 2;
    i64 hu, hv;
    shear(r, hu, hv);
    if (th < 300000) { hu = hv = 0; }
    const i64 x0 = r.chance(1, 2) ? 0 : r.in(100, 900);
    const double w = sdp_gridder_determine_w_step(th * 1e-6, fov * 1e-6, hu * 1e-6, hv * 1e-6, x0 * 1e-3);
    out.put(J().t("e", "WStep").n("theta", th).n("fov", fov).n("hu", hu).n("hv", hv).n("x0", x0)
            .n("err", 0).n("same", 1).n("inv", qr(1.0 / w, 1e6)));
}
int main(int argc, char** argv)
{
    return driver_main(argc, argv, {{"accum", accum, 3}, {"scale", scale, 2}, {"count", count, 1},
            {"diff", diff, 2}, {"shift", shift, 1}, {"place", place, 4}, {"sumdiff", sumdiff, 1},
            {"bounds", bounds, 2}, {"flmn", flmn, 2}, {"pattern", pattern, 1}, {"kernel", kernel, 2},
            {"wstep", wstep, 1}});
}
