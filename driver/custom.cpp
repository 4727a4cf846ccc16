// Degridding with custom kernels.
#include "arr.h"
#include "ska-sdp-func/grid_data/sdp_degrid_uvw_custom.h"

static const sdp_MemType D = SDP_MEM_DOUBLE, CD = SDP_MEM_COMPLEX_DOUBLE;
static void run(Rng& r, Out& out)
{
    const i64 k = r.in(1, 6), kw = r.in(1, 4), ov = r.in(1, 8), ow = r.in(1, 6), nz = kw + (r.chance(1, 5) ? r.in(-1, 2) : 0);
    const i64 G = r.in(3, 12), nch = r.in(1, 3), nt = r.in(1, 2), nb = r.in(1, 3), np = r.pick({1, 4});
    const i64 T = r.pick({1, 2, 4, 8}), ws = r.pick({1, 2, 4, 8}), f0 = r.in(1, 3), df = r.in(0, 2);
    const int conj = (int) r.in(0, 1);
    if (nz < 1) return;
    Arr grid(CD, {nch, nz, G, G, np}, (int) r.in(0, 1)), uvw(D, {nt, nb, 3}, (int) r.in(0, 1)),
        uk(D, {ov, k}, (int) r.in(0, 1)), wk(D, {ow, kw}, (int) r.in(0, 1)), vis(CD, {nt, nb, nch, np}, (int) r.in(0, 1));
    grid.fill([&](i64) { return cd(r.in(-9, 9), r.in(-9, 9)); });
    uk.fill([&](i64) { return cd(r.in(-3, 3), 0); });
    wk.fill([&](i64) { return cd(r.in(-3, 3), 0); });
    vis.fill([&](i64) { return cd(r.in(-9, 9), r.in(-9, 9)); });
    // Coordinates are multiples of a quarter; (u, v) mostly within the grid at the first channel.
    const i64 lim = r.pick({2, 4, 4, 8, 40}) * G * T / f0 / 2 + 1, wl = r.pick({4, 8, 20, 80}) * ws;
    for (i64 i = 0; i < nt * nb; ++i)
        for (int j = 0; j < 3; ++j) uvw.set(3 * i + j, (double) r.in(j < 2 ? -lim : -wl, j < 2 ? lim : wl) / 4.0);
    if (r.chance(1, 6)) uvw.set(r.in(0, uvw.n - 1), (double) r.in(-4000, 4000));
    const std::vector<i64> pre = vis.q();
    grid.take(); uvw.take(); uk.take(); wk.take();
    sdp_Error st = SDP_SUCCESS;
    sdp_degrid_uvw_custom(grid.m, uvw.m, uk.m, wk.m, 1.0 / T, (double) ws, f0 * C0, df * C0, conj, vis.m, &st);
    out.put(J().t("e", "Degrid").n("k", k).n("kw", kw).n("ov", ov).n("ow", ow).n("nz", nz).n("G", G).n("nch", nch)
            .n("nr", nt * nb).n("np", np).n("T", T).n("ws", ws).n("f0", f0).n("df", df).n("conj", conj)
            .a("grid", grid.q()).a("uvw", uvw.q(4)).a("uk", uk.q()).a("wk", wk.q()).a("pre", pre).a("post", vis.q())
            .n("same", grid.same() && uvw.same() && uk.same() && wk.same()).n("err", st));
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"run", run, 1}}); }
