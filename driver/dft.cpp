// Prediction of visibilities from point sources, and phase rotation.
#include "arr.h"
#include "ska-sdp-func/utility/sdp_sky_coord.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"

static void predict(Rng& r, Out& out)
{
    const i64 nc = r.in(0, 6) ? r.in(1, 6) : r.in(1, 12), nch = r.in(1, 4), nt = r.in(1, 4),
            nb = r.in(1, 5), np = r.pick({1, 4}), ver = r.in(0, 1);
    const i64 den = r.pick({4, 8, 12, 20, 63, 360, 1008, 10080});
    const sdp_MemType t = r.chance(2, 3) ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
    Arr dir(SDP_MEM_DOUBLE, {nc, 3}, (int) r.in(0, 1)), flux(SDP_MEM_COMPLEX_DOUBLE, {nc, nch, np}, (int) r.in(0, 1)),
        uvw(SDP_MEM_DOUBLE, ver ? Sh{nt, nb, 3} : Sh{nt, nb, nch, 3}, (int) r.in(0, 1)),
        vis(t, {nt, nb, nch, np}, (int) r.in(0, 1));
    const i64 lim = r.pick({1, 5, 100});
    std::vector<i64> di, u;
    // Directions are integers divided by den (as a fraction of a turn per wavelength).
    dir.fill([&](i64) { i64 x = r.in(-lim, lim); di.push_back(x); return (double) x / den; });
    flux.fill([&](i64) { return cd(r.in(-20, 20), r.in(-20, 20)); });
    uvw.fill([&](i64) { i64 x = r.in(-200, 200); u.push_back(x); return (double) x; });
    vis.fill([&](i64) { return cd(5, -5); });
    const i64 f0 = r.in(1, 9), df = r.in(-1, 3);
    dir.take(); flux.take(); uvw.take();
    sdp_Error st = SDP_SUCCESS;
    if (ver) sdp_dft_point_v01(dir.m, flux.m, uvw.m, f0 * C0, df * C0, vis.m, &st);
    else sdp_dft_point_v00(dir.m, flux.m, uvw.m, vis.m, &st);
    out.put(J().t("e", "Predict").n("ver", ver).n("nc", nc).n("nch", nch).n("nt", nt).n("nb", nb)
            .n("np", np).n("den", den).a("dir", di).a("flux", flux.q()).a("uvw", u).n("f0", f0)
            .n("df", df).n("err", st).n("same", dir.same() && flux.same() && uvw.same())
            .n("tol", t == SDP_MEM_COMPLEX_DOUBLE ? 4 : 60).a("out", vis.qround(1e4)));
}
static void rot_uvw(Rng& r, Out& out)
{
    const i64 nt = r.in(1, 5), nb = r.in(1, 5);
    const i64 den = r.pick({4, 8, 12, 24, 360, 10080});
    const bool dbl = r.chance(1, 2);
    const sdp_MemType t = dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
    Arr a(t, {nt, nb, 3}, (int) r.in(0, 1)), b(t, {nt, nb, 3}, (int) r.in(0, 1));
    a.fill([&](i64) { return r.in(-300, 300); });
    b.fill([&](i64) { return 9; });
    a.take();
    const i64 o[2] = {r.in(0, den - 1), r.in(-den / 4, den / 4)};
    i64 n[2] = {r.in(0, den - 1), r.in(-den / 4, den / 4)};
    if (r.chance(1, 5)) n[0] = o[0];
    if (r.chance(1, 5)) n[1] = o[1];
    const double tw = 2 * M_PI / den;
    sdp_SkyCoord* co = sdp_sky_coord_create("icrs", o[0] * tw, o[1] * tw, r.in(0, 3));
    sdp_SkyCoord* cn = sdp_sky_coord_create("icrs", n[0] * tw, n[1] * tw, r.in(0, 3));
    sdp_Error st = SDP_SUCCESS;
    sdp_phase_rotate_uvw(co, cn, a.m, b.m, &st);
    out.put(J().t("e", "RotUvw").n("nt", nt).n("nb", nb).n("den", den).a("uvw", a.q())
            .a("o", std::vector<i64>(o, o + 2)).a("n", std::vector<i64>(n, n + 2)).n("err", st)
            .n("same", a.same()).n("tol", dbl ? 2 : 3).a("out", b.qround(1e3)));
    sdp_sky_coord_free(co); sdp_sky_coord_free(cn);
}
static void rot_vis(Rng& r, Out& out)
{
    const i64 nch = r.in(1, 4), nt = r.in(1, 4), nb = r.in(1, 5), np = r.pick({1, 4});
    const i64 den = r.pick({4, 8, 12, 24, 360, 10080});
    const bool dbl = r.chance(1, 2);
    const sdp_MemType t = dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT,
            tc = dbl ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
    Arr a(t, {nt, nb, 3}, (int) r.in(0, 1)), vi(tc, {nt, nb, nch, np}, (int) r.in(0, 1)),
        vo(tc, {nt, nb, nch, np}, (int) r.in(0, 1));
    a.fill([&](i64) { return r.in(-12, 12); });
    vi.fill([&](i64) { return cd(r.in(-9, 9), r.in(-9, 9)); });
    vo.fill([&](i64) { return cd(9, 3); });
    a.take(); vi.take();
    const i64 f0 = r.in(1, 5), df = r.in(-1, 2);
    const i64 o[2] = {r.in(0, den - 1), r.in(-den / 4, den / 4)};
    i64 n[2] = {r.in(0, den - 1), r.in(-den / 4, den / 4)};
    if (r.chance(1, 5)) n[0] = o[0];
    if (r.chance(1, 5)) n[1] = o[1];
    const double tw = 2 * M_PI / den;
    sdp_SkyCoord* co = sdp_sky_coord_create("icrs", o[0] * tw, o[1] * tw, r.in(0, 3));
    sdp_SkyCoord* cn = sdp_sky_coord_create("icrs", n[0] * tw, n[1] * tw, r.in(0, 3));
    sdp_Error st = SDP_SUCCESS;
    sdp_phase_rotate_vis(co, cn, f0 * C0, df * C0, a.m, vi.m, vo.m, &st);
    out.put(J().t("e", "RotVis").n("nt", nt).n("nb", nb).n("nch", nch).n("np", np).n("den", den)
            .a("uvw", a.q()).a("vis", vi.q()).n("f0", f0).n("df", df)
            .a("o", std::vector<i64>(o, o + 2)).a("n", std::vector<i64>(n, n + 2)).n("err", st)
            .n("same", a.same() && vi.same()).n("tol", 3).a("out", vo.qround(100)));
    sdp_sky_coord_free(co); sdp_sky_coord_free(cn);
}
int main(int argc, char** argv)
{
    return driver_main(argc, argv, {{"predict", predict, 2}, {"rot_uvw", rot_uvw, 1}, {"rot_vis", rot_vis, 1}});
}
