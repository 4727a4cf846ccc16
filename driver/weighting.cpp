// Uniform and Briggs weighting: sequences of calls on one weights grid.
#include "arr.h"
#include "ska-sdp-func/visibility/sdp_weighting.h"

static void one(Rng& r, Out& out)
{
    const bool dbl = r.chance(2, 3);
    const int nt = (int) r.in(1, 3), nb = (int) r.in(1, 4), nc = (int) r.in(1, 3);
    const int np = (int) r.pick({1, 1, 2, 4, 3});
    const int G = (int) r.in(2, 9);
    const int mab = (int) r.pick({1, 2, 4, 8, 16});
    const sdp_MemType wt = dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
    Arr uvw(SDP_MEM_DOUBLE, {nt, nb, 3}), freq(SDP_MEM_DOUBLE, {nc});
    Arr grid(wt, {G, G, np}), in(wt, {nt, nb, nc, np}), o(wt, {nt, nb, nc, np});
    std::vector<i64> gv(G * G * np, 0);
    const bool pre = r.chance(1, 3);
    grid.fill([&](i64) { return pre ? (double) r.in(0, 5) : 0.0; });
    const int ncall = (int) r.in(1, 3);
    out.put(J().t("e", "Grid").n("G", G).n("np", np).n("mab", mab)
            .n("dbl", dbl).a("grid", grid.q()));
    for (int k = 0; k < ncall; ++k)
    {
        const bool briggs = r.chance(1, 2);
        const int wide = (int) r.pick({1, 1, 2, 8});
        std::vector<i64> u, v, f, w;
        for (int i = 0; i < nt * nb; ++i)
        {
            // In eighths of a wavelength per unit frequency.
            u.push_back(r.in(-8 * mab * wide, 8 * mab * wide));
            v.push_back(r.in(-8 * mab * wide, 8 * mab * wide));
            if (r.chance(1, 6)) u.back() = r.pick({-8, 8}) * mab + r.in(-1, 1);
            if (r.chance(1, 6)) v.back() = r.pick({-8, 8}) * mab + r.in(-1, 1);
            if (r.chance(1, 8)) { u.back() = 0; }
            if (i && r.chance(1, 4)) { u[i] = u[i - 1]; v[i] = v[i - 1]; }
            uvw.set(3 * i, u[i] / 8.0);
            uvw.set(3 * i + 1, v[i] / 8.0);
            uvw.set(3 * i + 2, (double) r.in(-100, 100));
        }
        for (int i = 0; i < nc; ++i)
        {
            f.push_back(r.in(1, 4));
            freq.set(i, f[i] * C0);
        }
        in.fill([&](i64) { w.push_back(r.in(1, 9)); return (double) w.back(); });
        o.fill([&](i64) { return -7.0; });
        uvw.take(); freq.take(); in.take();
        sdp_Error st = SDP_SUCCESS;
        int R2 = (int) r.in(-2, 4); // Twice the robustness parameter.
        if (briggs)
            sdp_weighting_briggs(uvw.m, freq.m, mab, R2 / 2.0, grid.m, in.m, o.m, &st);
        else
            sdp_weighting_uniform(uvw.m, freq.m, mab, grid.m, in.m, o.m, &st);
        out.put(J().t("e", briggs ? "Briggs" : "Uniform").n("err", st).n("r2", R2)
                .a("u", u).a("v", v).a("f", f).a("w", w)
                .a("grid", grid.q()).a("out", o.qround(1e7))
                .n("same", uvw.same() && freq.same() && in.same()));
    }
}

int main(int argc, char** argv)
{
    return driver_main(argc, argv, {{"weighting", one, 1}});
}
