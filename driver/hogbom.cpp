// Hogbom CLEAN, on data for which every value is exact in single precision.
#include "arr.h"
#include "ska-sdp-func/clean/sdp_hogbom_clean.h"

static void clean(Rng& r, Out& out)
{
    const i64 n = r.in(1, 5);
    const int k = (int) r.in(0, 2), p = (int) r.in(1, 2); // gain 2^-k, psf in 2^-p
    const int cmax = (int) std::max<i64>(1, std::min<i64>(4, 12 / (k + p)));
    const double unit = (double) (1 << (cmax * (k + p)));
    const sdp_MemType t = r.chance(1, 2) ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
    auto lay = [&]() { return (int) r.in(0, 1); };
    Arr dirty(t, {n, n}, lay()), psf(t, {2 * n, 2 * n}, lay()), beam(t, {4}, lay());
    const int v = (int) r.pick({1, 3, 15}), neg = (int) r.pick({0, -v, -v});
    dirty.fill([&](i64) { return (double) r.in(neg, v); });
    const int side = (1 << p) - 1, dens = (int) r.pick({1, 5, 10});
    psf.fill([&](i64) { return r.chance(dens, 10) ? (double) r.in(-side, side) / (1 << p) : 0.; });
    psf.set(n * 2 * n + n, r.chance(7, 8) ? 1.0 : 0.5);
    // Beam 2^-(A dx^2 + B dx dy + C dy^2).
    i64 m = r.in(1, 9), A, B, C;
    const int q1 = (int) r.in(1, 3), q2 = r.chance(1, 3) ? q1 : (int) r.in(1, 4);
    const int px = r.chance(1, 2) ? 2 * q1 : 2 * q1 - 1, py = px % 2 ? 2 * q2 - 1 : 2 * q2;
    const double theta = r.pick({0., 90., 45., 135., -45., 180.});
    if (theta == 0. || theta == 180.) { A = px; B = 0; C = py; }
    else if (theta == 90.) { A = py; B = 0; C = px; }
    else { A = C = (px + py) / 2; B = theta == 45. ? px - py : py - px; }
    beam.set(0, 1 / std::sqrt(2 * M_LN2 * px));
    beam.set(1, 1 / std::sqrt(2 * M_LN2 * py));
    beam.set(2, theta);
    beam.set(3, (double) m + (r.chance(1, 4) ? 0.25 : 0.));
    const double thr = r.chance(1, 3) ? -1000. : (double) r.in(-8, 4 * v) / 4;
    const double gain = 1.0 / (1 << k);
    dirty.take(); psf.take(); beam.take();
    out.put(J().t("e", "Problem").n("n", n).n("gd", 1 << k).n("ps", 1 << p).n("m", m)
            .n("A", A).n("B", B).n("C", C).n("tol", 6).n("thr", qx(thr, unit))
            .a("dirty", dirty.q(unit)).a("psf", psf.q(1 << p)));
    for (int c = 1; c <= cmax; ++c)
    {
        if (c < cmax && r.chance(1, 4)) continue;
        Arr comp(t, {n, n}, lay()), res(t, {n, n}, lay()), sky(t, {n, n}, lay());
        // Nothing may depend on what the outputs held before.
        for (Arr* a : {&comp, &res, &sky}) a->fill([&](i64) { return (double) r.in(-9, 9); });
        sdp_Error st = SDP_SUCCESS;
        sdp_hogbom_clean(dirty.m, psf.m, beam.m, gain, thr, c, comp.m, res.m, sky.m, &st);
        out.put(J().t("e", "Run").n("limit", c).n("err", st).a("comp", comp.q(unit))
                .a("res", res.q(unit)).a("sky", sky.qround(unit))
                .n("same", dirty.same() && psf.same() && beam.same()));
    }
}

// A single bright pixel: where is it in the restored image?
static void centre(Rng& r, Out& out)
{
    const i64 n = r.in(3, 8), m = r.in(1, 9), cx = r.in(0, n - 2), cy = r.in(0, n - 2);
    const sdp_MemType t = SDP_MEM_DOUBLE;
    Arr dirty(t, {n, n}), psf(t, {2 * n, 2 * n}), beam(t, {4}), comp(t, {n, n}), res(t, {n, n}), sky(t, {n, n});
    dirty.set(cx * n + cy, 1.);
    psf.set(n * 2 * n + n, 1.);
    beam.set(0, 1.); beam.set(1, 1.); beam.set(3, (double) m);
    sdp_Error st = SDP_SUCCESS;
    sdp_hogbom_clean(dirty.m, psf.m, beam.m, 0.5, 0.1, 1, comp.m, res.m, sky.m, &st);
    i64 best = 0;
    for (i64 i = 0; i < n * n; ++i)
        if (sky.re(i) - res.re(i) > sky.re(best) - res.re(best) + 1e-9) best = i;
    J j;
    j.t("e", "Centre").n("m", m).n("cx", cx).n("cy", cy).n("px", best / n).n("py", best % n);
    if (m % 2 == 0) j.t("key", "even-beam-displaced");
    out.put(j);
}

int main(int argc, char** argv)
{
    return driver_main(argc, argv, {{"clean", clean, 15}, {"centre", centre, 1}});
}
