// Direct (de)gridder.
#include "arr.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"

static const sdp_MemType D = SDP_MEM_DOUBLE, F = SDP_MEM_FLOAT, CD = SDP_MEM_COMPLEX_DOUBLE,
        CF = SDP_MEM_COMPLEX_FLOAT;
static void run(Rng& r, Out& out)
{
    const bool grid = r.chance(1, 2), dbl = r.chance(2, 3), sel = true;
    const i64 n = r.pick({2, 3, 4, 4, 5, 6, 8}), num = r.in(1, 4), nch = r.in(1, 3), T = r.pick({2, 5, 10, 50});
    const i64 f0 = r.in(1, 4), df = r.in(0, 2), ws = r.in(1, 6), support = r.in(4, 9);
    i64 hu = 0, hv = 0;
    if (r.chance(1, 3)) { hu = r.in(-3, 3) * 50000; hv = r.in(-3, 3) * 50000; }
    sdp_Error st = SDP_SUCCESS;
    sdp_GridderDirect* p = sdp_gridder_direct_create((int) (n * r.in(1, 4)), (int) n, 1.0 / T, (double) ws,
            hu * 1e-6, hv * 1e-6, (int) support, &st);
    std::vector<i64> tap;
    {
        Arr w(D, {n});
        sdp_generate_pswf(0, support * (M_PI / 2), w.m, &st);
        for (i64 i = 0; i < n; ++i) tap.push_back(i || n % 2 ? qr(w.re(i), 1e6) : 0);
    }
    i64 off[3] = {0, 0, 0};
    if (r.chance(1, 2)) { off[0] = r.in(-20, 20); off[1] = r.in(-20, 20); off[2] = r.in(-4, 4); }
    Arr uvw(dbl ? D : F, {num, 3}, (int) r.in(0, 3)), vis(dbl ? CD : CF, {num, nch}, (int) r.in(0, 3)),
        img(dbl ? CD : CF, {n, n}, (int) r.in(0, 3)),
        s(SDP_MEM_INT, {num}, (int) r.in(0, 3)), e(SDP_MEM_INT, {num}, (int) r.in(0, 3));
    for (i64 i = 0; i < num; ++i)
    {
        for (int j = 0; j < 3; ++j)
            uvw.set(3 * i + j, (double) (r.in(-12, 12) + (r.chance(1, 2) ? off[j] * (j < 2 ? T : ws) : 0)));
        const i64 a = r.in(0, nch), b = r.in(0, nch);
        const bool all = r.chance(1, 3);
        s.set(i, (double) (all ? 0 : a)); e.set(i, (double) (all ? nch : b));
    }
    // Real sub-grid images, or (a recorded finding) complex ones.
    const bool cplx = !grid && r.chance(1, 8);
    img.fill([&](i64) { return grid ? cd(r.in(-9, 9), r.in(-9, 9)) : r.chance(1, n) ? cd(r.in(-9, 9), cplx ? r.in(1, 9) : 0) : cd(0); });
    if (!grid && r.chance(1, 2)) img.set(r.in(0, img.n - 1), cd(r.in(1, 9), 0));
    vis.fill([&](i64) { return cd(r.in(-9, 9), r.in(-9, 9)); });
    i64 sum = 0;
    const Arr& in = grid ? vis : img;
    bool empty = true;
    for (i64 i = 0; i < in.n; ++i)
    {
        sum += (i64) (std::fabs(in.get(i).real()) + std::fabs(in.get(i).imag()));
        if (in.get(i) != cd(0)) empty = false;
    }
    const std::vector<i64> pre = grid ? img.q() : vis.q(), inq = in.q();
    uvw.take(); s.take(); e.take();
    if (grid) vis.take(); else img.take();
    J j;
    if (!st)
    {
        if (grid) sdp_gridder_direct_grid(p, vis.m, uvw.m, s.m, e.m, f0 * C0, df * C0, img.m, (int) off[0], (int) off[1], (int) off[2], &st);
        else sdp_gridder_direct_degrid(p, img.m, (int) off[0], (int) off[1], (int) off[2], f0 * C0, df * C0, uvw.m, s.m, e.m, vis.m, &st);
    }
    (void) empty;
    bool really = false;
    for (i64 i = 0; i < img.n; ++i) if (!grid && img.get(i).imag() != 0) really = true;
    j.t("e", grid ? "Grid" : "Degrid").n("n", n).n("num", num).n("nch", nch).n("T", T).n("ws", ws)
        .n("f0", f0).n("df", df).n("hu", hu).n("hv", hv).n("sel", sel).a("s", s.q()).a("t", e.q())
        .a("off", std::vector<i64>(off, off + 3)).a("tap", tap).a("uvw", uvw.q()).a(grid ? "vis" : "img", inq)
        .a("pre", pre).n("err", st)
        .n("same", uvw.same() && s.same() && e.same() && (grid ? vis.same() && img.gaps_ok() : img.same() && vis.gaps_ok()))
        .n("tol", 4 + sum * (dbl ? 6 : 8)).a("post", grid ? img.qround(1e4) : vis.qround(1e4));
    if (really) j.t("key", "complex-image-real-part");
    out.put(j);
    st = SDP_SUCCESS;
    std::vector<i64> got = {sdp_gridder_direct_subgrid_size(p), sdp_gridder_direct_support(p),
            qx(sdp_gridder_direct_theta(p), 5000), qx(sdp_gridder_direct_w_step(p)),
            qx(sdp_gridder_direct_shear_u(p), 1e6), qx(sdp_gridder_direct_shear_v(p), 1e6)};
    std::vector<i64> want = {n, support, 5000 / T, ws, hu, hv};
    out.put(J().t("e", "Plan").a("got", got).a("want", want).n("err", 0).n("same", 1));
    sdp_gridder_direct_free(p);
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"run", run, 1}}); }
