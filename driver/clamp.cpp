// Channel clamping (one and two dimensions) and overall uvw bounds.
#include "arr.h"
#include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"

// All coordinates are in eighths of a wavelength.
struct Data
{
    Arr uvw, s, e;
    int n; i64 f0, df;
    std::vector<std::vector<i64> > x;
    std::vector<i64> si, ei;
    Data(Rng& r, int minf = 0)
    {
        n = (int) r.in(1, 6);
        uvw.make(r.chance(1, 2) ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT, {n, 3}, (int) r.in(0, 3));
        s.make(SDP_MEM_INT, {n}, (int) r.in(0, 3)); e.make(SDP_MEM_INT, {n}, (int) r.in(0, 3));
        f0 = r.in(0, 8); df = r.in(minf, 5);
        if (r.chance(1, 3)) f0 = r.pick({1000, 30000, 1000000, 10000000}) + r.in(0, 8);
        x.resize(3);
        for (int i = 0; i < n; ++i)
        {
            for (int j = 0; j < 3; ++j)
            {
                const i64 m = r.pick({2, 10, 100});
                x[j].push_back(r.chance(1, 6) ? 0 : r.in(-m, m));
                uvw.set(3 * i + j, (double) x[j][i]);
            }
            si.push_back(r.in(0, 8)); ei.push_back(r.in(0, 14));
            s.set(i, (double) si[i]); e.set(i, (double) ei[i]);
        }
    }
    double F0() const { return f0 * C0 / 8; }
    double DF() const { return df * C0 / 8; }
    J head(const char* name)
    {
        J j;
        j.t("e", name).n("n", n).n("f0", f0).n("df", df).a("u", x[0]).a("v", x[1])
         .a("w", x[2]).a("si", si).a("ei", ei);
        return j;
    }
};

static void clamp(Rng& r, Out& out)
{
    Data d(r);
    const bool two = r.chance(1, 2);
    const int dim = (int) r.in(0, 2), k = (int) r.in(1, 4);
    std::vector<i64> b, c;
    // Coordinates some channel has, so that bounds often coincide with one.
    auto bound = [&](int j) {
        const i64 row = r.in(0, d.n - 1);
        return d.x[j][row] * (d.f0 + r.in(0, 8) * d.df) + (r.chance(1, 2) ? 0 : r.in(-9, 9))
            + (r.chance(1, 6) ? r.pick({-1000000000, 1000000000}) : 0);
    };
    for (int i = 0; i <= k; ++i) b.push_back(bound(two ? 0 : dim));
    std::sort(b.begin(), b.end());
    c = {bound(1), bound(1)};
    std::sort(c.begin(), c.end());
    i64 r0 = -1, r1 = -1;
    if (r.chance(1, 2)) { r0 = r.in(0, d.n); r1 = r.in(0, d.n); }
    std::vector<std::vector<i64> > so, eo;
    sdp_Error st = SDP_SUCCESS;
    d.uvw.take(); d.s.take(); d.e.take();
    bool ok = true;
    const bool inplace = r.chance(1, 4);
    for (int i = 0; i < k; ++i)
    {
        Arr a(SDP_MEM_INT, {d.n}, (int) r.in(0, 3)), z(SDP_MEM_INT, {d.n}, (int) r.in(0, 3));
        a.fill([&](i64 q) { return inplace ? d.s.re(q) : -3.0; });
        z.fill([&](i64 q) { return inplace ? d.e.re(q) : -3.0; });
        const sdp_Mem* is = inplace ? a.m : d.s.m;
        const sdp_Mem* ie = inplace ? z.m : d.e.m;
        if (two)
            sdp_gridder_clamp_channels_uv(d.uvw.m, d.F0(), d.DF(), is, ie, b[i] / 8.0,
                    b[i + 1] / 8.0, c[0] / 8.0, c[1] / 8.0, a.m, z.m, r0, r1, &st);
        else
            sdp_gridder_clamp_channels_single(d.uvw.m, dim, d.F0(), d.DF(), is, ie, b[i] / 8.0,
                    b[i + 1] / 8.0, a.m, z.m, r0, r1, &st);
        so.push_back(a.q()); eo.push_back(z.q());
        ok = ok && a.gaps_ok() && z.gaps_ok();
    }
    out.put(d.head("Clamp").n("err", st).n("two", two).n("dim", dim).a("b", b).a("vb", c)
            .n("r0", r0).n("r1", r1).n("inplace", inplace).aa("so", so).aa("eo", eo)
            .n("same", ok && d.uvw.same() && d.s.same() && d.e.same()));
}

static void bounds(Rng& r, Out& out)
{
    Data d(r);
    double lo[3] = {-7, -7, -7}, hi[3] = {7, 7, 7};
    sdp_Error st = SDP_SUCCESS;
    d.uvw.take(); d.s.take(); d.e.take();
    sdp_gridder_uvw_bounds_all(d.uvw.m, d.F0(), d.DF(), d.s.m, d.e.m, lo, hi, &st);
    std::vector<i64> l, h;
    for (int j = 0; j < 3; ++j) { l.push_back(qx(lo[j], 8)); h.push_back(qx(hi[j], 8)); }
    out.put(d.head("Bounds").n("err", st).a("lo", l).a("hi", h)
            .n("same", d.uvw.same() && d.s.same() && d.e.same()));
}

int main(int argc, char** argv)
{
    return driver_main(argc, argv, {{"clamp", clamp, 3}, {"bounds", bounds, 1}});
}
