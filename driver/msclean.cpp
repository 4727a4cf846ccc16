// Multi-scale CLEAN. Values are recorded in units of 1/10000.
#include "arr.h"
#include "ska-sdp-func/clean/sdp_ms_clean_cornwell.h"

static void clean(Rng& r, Out& out)
{
    const i64 n = r.in(2, 4), m = 2 * n + (n == 2 ? 1 : r.in(0, 1));
    const sdp_MemType t = r.chance(2, 3) ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
    auto lay = [&]() { return (int) r.in(0, 1); };
    const int ns = (int) r.in(1, 3);
    Arr dirty(t, {n, n}, lay()), psf(t, {m, m}, lay()), beam(t, {4}, lay()), sc(SDP_MEM_INT, {ns}, lay());
    // Well separated values, so that there is seldom doubt about the peak.
    const int dens = (int) r.pick({3, 10});
    dirty.fill([&](i64) { return r.chance(dens, 10) ? (double) r.in(-20, 50) / 10 : 0.; });
    const int pd = (int) r.pick({0, 3, 10});
    psf.fill([&](i64) { return r.chance(pd, 10) ? (double) r.in(-2, 4) / 10 : 0.; });
    psf.set((m / 2) * m + m / 2, 1.);
    std::vector<i64> sl;
    for (int i = 0; i < ns; ++i)
    {
        sl.push_back(i == 0 && r.chance(2, 3) ? 0 : r.in(0, 4));
        sc.set(i, (double) sl.back());
    }
    i64 A, B, C;
    const int q1 = (int) r.in(1, 3), q2 = (int) r.in(1, 3);
    const int px = r.chance(1, 2) ? 2 * q1 : 2 * q1 - 1, py = px % 2 ? 2 * q2 - 1 : 2 * q2;
    const double theta = r.pick({0., 90., 45., 135.});
    if (theta == 0.) { A = px; B = 0; C = py; }
    else if (theta == 90.) { A = py; B = 0; C = px; }
    else { A = C = (px + py) / 2; B = theta == 45. ? px - py : py - px; }
    beam.set(0, 1 / std::sqrt(2 * M_LN2 * px));
    beam.set(1, 1 / std::sqrt(2 * M_LN2 * py));
    beam.set(2, theta);
    beam.set(3, (double) m);
    const double thr = r.chance(1, 3) ? 0.01 : (double) r.in(1, 30) / 10;
    const int gn = (int) r.pick({1, 1, 3}), gd = (int) r.pick({4, 5, 10});
    dirty.take(); psf.take(); beam.take(); sc.take();
    out.put(J().t("e", "Problem").n("n", n).n("m", m).a("scales", sl).n("gn", gn).n("gd", gd)
            .n("A", A).n("B", B).n("C", C).n("tol", 100).n("thr", qr(thr, 1e4))
            .a("dirty", dirty.qround(1e4)).a("psf", psf.qround(1e4)));
    for (int c = 1; c <= 3; ++c)
    {
        Arr comp(t, {n, n}, lay()), res(t, {n, n}, lay()), sky(t, {n, n}, lay());
        for (Arr* a : {&comp, &res, &sky}) a->fill([&](i64) { return (double) r.in(-9, 9); });
        sdp_Error st = SDP_SUCCESS;
        sdp_ms_clean_cornwell(dirty.m, psf.m, beam.m, sc.m, (double) gn / gd, thr, c,
                comp.m, res.m, sky.m, &st);
        out.put(J().t("e", "Run").n("limit", c).n("err", st).a("comp", comp.qround(1e4))
                .a("res", res.qround(1e4)).a("sky", sky.qround(1e4))
                .n("same", dirty.same() && psf.same() && beam.same() && sc.same()));
    }
}

// A single bright pixel: where are its component and its restored image?
static void centre(Rng& r, Out& out)
{
    const i64 n = r.in(4, 7), m = 2 * n + r.in(0, 1), cx = r.in(1, n - 3), cy = r.in(1, n - 3);
    const sdp_MemType t = SDP_MEM_DOUBLE;
    Arr dirty(t, {n, n}), psf(t, {m, m}), beam(t, {4}), comp(t, {n, n}), res(t, {n, n}),
        sky(t, {n, n}), sc(SDP_MEM_INT, {2});
    dirty.set(cx * n + cy, 1.);
    psf.set((m / 2) * m + m / 2, 1.);
    beam.set(0, 1.); beam.set(1, 1.); beam.set(3, (double) m);
    sc.set(1, (double) r.in(2, 4));
    sdp_Error st = SDP_SUCCESS;
    sdp_ms_clean_cornwell(dirty.m, psf.m, beam.m, sc.m, 0.5, 0.01, 1, comp.m, res.m, sky.m, &st);
    i64 b = 0, s = 0;
    for (i64 i = 0; i < n * n; ++i)
    {
        if (comp.re(i) > comp.re(b) + 1e-9) b = i;
        if (sky.re(i) - res.re(i) > sky.re(s) - res.re(s) + 1e-9) s = i;
    }
    J j;
    j.t("e", "Centre").n("m", m).n("cx", cx).n("cy", cy).n("px", b / n).n("py", b % n)
     .n("sx", s / n).n("sy", s % n);
    if (m % 2 == 0) j.t("key", "even-psf-displaced");
    out.put(j);
}

int main(int argc, char** argv)
{
    return driver_main(argc, argv, {{"clean", clean, 9}, {"centre", centre, 1}});
}
