// Sub-grid (de)gridding with w-towers, between a corrected sub-grid image and visibilities.
#include "arr.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"

static const sdp_MemType D = SDP_MEM_DOUBLE, F = SDP_MEM_FLOAT, CD = SDP_MEM_COMPLEX_DOUBLE,
        CF = SDP_MEM_COMPLEX_FLOAT;
struct Case
{
    i64 S, T, ws, sup, ov, wsup, wov, hu = 0, hv = 0, N, D, f0 = 8, df, off[3] = {0, 0, 0}, half;
    bool exact;
};

static Case make(Rng& r)
{
    Case c;
    c.exact = r.chance(2, 3);
    c.sup = r.pick({4, 6, 8, 8, 8, 10});
    c.wsup = r.pick({4, 6, 8, 8, 8, 10});
    c.S = r.pick({16, 18, 20, 24, 32});
    c.N = r.chance(1, 3) ? 2 * c.S : c.S;
    c.T = r.pick({2, 4, 5, 10});
    c.ws = r.in(1, c.T == 2 ? 8 : c.T == 4 ? 16 : 20);
    if (r.chance(1, 3)) { c.hu = r.in(-3, 3) * 50000; c.hv = r.in(-3, 3) * 50000; }
    c.D = c.exact ? 64 : 104;
    c.ov = c.exact ? r.pick({64, 128, 512}) : r.pick({16, 32, 50});
    c.wov = c.exact ? r.pick({64, 192, 1024}) : r.pick({16, 24, 50});
    c.df = r.in(0, 2);
    if (r.chance(1, 2)) { c.off[0] = r.in(-40, 40); c.off[1] = r.in(-40, 40); }
    if (r.chance(1, 2)) c.off[2] = r.in(-5, 5);
    c.half = c.S / 2;
    return c;
}

// Correct an image of one value per pixel of the sub-grid, whole or facet by facet.
static void correct(Rng& r, sdp_GridderWtowerUVW* p, const Case& c, Arr& img, bool grid, sdp_Error* st)
{
    const i64 k = c.N / c.S;
    const i64 parts = r.chance(1, 3) && c.N % 4 == 0 ? 2 : 1, fs = c.N / parts;
    for (i64 a = 0; a < parts; ++a)
        for (i64 b = 0; b < parts; ++b)
        {
            Arr f(CD, {fs, fs}, (int) r.in(0, 3));
            auto at = [&](i64 i, i64 part) { return part * fs + i; };   // pixel of the image
            auto in = [&](i64 x) { return (x - c.N / 2) % k == 0 && x - c.N / 2 >= -c.half * k && (x - c.N / 2) / k < c.half; };
            for (i64 i = 0; i < fs; ++i)
                for (i64 j = 0; j < fs; ++j)
                    if (in(at(i, a)) && in(at(j, b)))
                        f.set(i * fs + j, img.get(((at(i, a) - c.N / 2) / k + c.half) * c.S + (at(j, b) - c.N / 2) / k + c.half));
            const int ol = (int) (a * fs + fs / 2 - c.N / 2), om = (int) (b * fs + fs / 2 - c.N / 2);
            if (grid) sdp_gridder_wtower_uvw_grid_correct(p, f.m, ol, om, (int) c.off[2], st);
            else sdp_gridder_wtower_uvw_degrid_correct(p, f.m, ol, om, (int) c.off[2], st);
            for (i64 i = 0; i < fs; ++i)
                for (i64 j = 0; j < fs; ++j)
                    if (in(at(i, a)) && in(at(j, b)))
                        img.set(((at(i, a) - c.N / 2) / k + c.half) * c.S + (at(j, b) - c.N / 2) / k + c.half, f.get(i * fs + j));
        }
}

static void run(Rng& r, Out& out)
{
    const Case c = make(r);
    const bool grid = r.chance(1, 2);
    const int kind = (int) r.in(0, 3); // 0, 1: all double; 2: float with double uvw; 3: float
    const sdp_MemType VT = kind < 2 ? CD : CF, UT = kind < 3 ? D : F;
    const i64 num = r.in(1, 5), nch = r.in(1, 3), q = c.half / 2;
    sdp_Error st = SDP_SUCCESS;
    sdp_GridderWtowerUVW* p = sdp_gridder_wtower_uvw_create((int) c.N, (int) c.S, 1.0 / c.T,
            (double) c.ws, c.hu * 1e-6, c.hv * 1e-6, (int) c.sup, (int) c.ov, (int) c.wsup, (int) c.wov, &st);
    // Coordinates: (f0 + ch * df) * base, in 1/D of a cell (or of a plane).
    std::vector<i64> base, nudge;
    Arr uvw(UT, {num, 3}, (int) r.in(0, 3)), vis(VT, {num, nch}, (int) r.in(0, 3)),
        s(SDP_MEM_INT, {num}, (int) r.in(0, 3)), e(SDP_MEM_INT, {num}, (int) r.in(0, 3));
    bool late = false;
    const bool stray = r.chance(2, 5); // Some rows leave the sub-grid.
    for (i64 i = 0; i < num; ++i)
    {
        i64 a = r.in(0, nch), b = r.in(0, nch);
        if (r.chance(1, 2)) { a = 0; b = nch; }
        const bool out_ = stray && r.chance(1, 2);
        if (out_ && grid) { a = r.in(0, nch - 1); b = a + 1; }
        for (int j = 0; j < 3; ++j)
        {
            const i64 fmid = c.f0 + a * c.df;
            const i64 room = out_ && j < 2 ? (r.chance(1, 2) ? c.half + 4 : 4 * c.S) : c.half - c.sup / 2 - 1;
            i64 x = j < 2 ? r.in(-room * c.D, room * c.D) + c.off[j] * c.D : r.in(-4 * c.D, 4 * c.D);
            if (out_ && j < 2 && r.chance(2, 3))    // about the edge
                x = r.pick({-1, 1}) * (c.half - c.sup / 2 + r.in(-1, 1)) * c.D + r.in(-9, 9) + c.off[j] * c.D;
            else if (r.chance(1, 3)) x = (x / c.D) * c.D;    // on a cell or plane
            if (j == 2 && r.chance(1, 4)) x = 0;
            i64 bb = x / fmid;
            for (int tries = 0; j < 2 && !out_; ++tries)
            {
                bool ok = true;
                for (i64 ch = a; ch < b; ++ch)
                {
                    const i64 X = bb * (c.f0 + ch * c.df) - c.off[j] * c.D;
                    if (X < -room * c.D || X > room * c.D) ok = false;
                }
                if (ok) break;
                if (tries > 3) { b = a; break; }
                x = r.in(-room * c.D / 2, room * c.D / 2) + c.off[j] * c.D;
                bb = x / fmid;
            }
            // Just below a plane the wrong row of the w-kernel is used, which is a recorded
            // finding: only one visibility of some cases is there.
            const auto last = [&](i64 b0) {
                for (i64 ch = 0; ch < nch; ++ch)
                {
                    const i64 w = b0 * (c.f0 + ch * c.df), m = ((w % c.D) + c.D) % c.D;
                    if (UT == F && m == 0 && w) return true;
                    if (!c.exact && 2 * (c.D - m) * c.wov <= c.D + 1) return true;
                }
                return false;
            };
            while (j == 2 && last(bb)) bb = r.in(-4 * c.D, 4 * c.D) / c.f0;
            i64 nd = c.exact && UT == D && !out_ ? r.in(-1, 1) : 0;
            if (j == 2 && UT == D) nd = 1;
            if (j == 2 && i == 0 && !out_ && a < b && c.exact && UT == D && r.chance(1, 8))
            {
                bb = r.in(-3, 3) * c.D / c.f0;
                nd = -1;
                b = a + 1;
                if (a) bb = r.in(-3, 3) * c.D;
                late = true;
            }
            base.push_back(bb);
            uvw.set(3 * i + j, (bb + nd * 1e-6) / (double) c.D * (j < 2 ? c.T : c.ws));
        }
        s.set(i, (double) a); e.set(i, (double) b);
    }
    auto X = [&](i64 i, int j, i64 ch) { return base[3 * i + j] * (c.f0 + ch * c.df) - (j < 2 ? c.off[j] * c.D : 0); };
    auto unsure = [&](i64 i) // not all selected channels well inside
    {
        for (i64 ch = (i64) s.re(i); ch < (i64) e.re(i); ++ch)
            for (int j = 0; j < 2; ++j)
                if (std::llabs(X(i, j, ch)) > (c.half - c.sup / 2 - 1) * c.D) return true;
        return false;
    };
    auto gone = [&](i64 i, i64 ch) // well outside
    {
        for (int j = 0; j < 2; ++j)
            if (std::llabs(X(i, j, ch)) > (c.half - c.sup / 2 + 1) * c.D) return true;
        return false;
    };
    const bool dense = r.chance(1, 2);
    vis.fill([&](i64) { return dense || r.chance(1, 2) ? cd(r.in(-9, 9), r.in(-9, 9)) : cd(0); });
    if (grid)
        for (i64 i = 0; i < num; ++i)
            for (i64 ch = 0; ch < nch; ++ch)
                if (unsure(i) && !gone(i, ch)) vis.set(i * nch + ch, 0);
    Arr img(grid || kind < 2 ? VT : VT, {c.S, c.S}, (int) r.in(0, 3)), work(CD, {c.S, c.S});
    std::vector<i64> src;
    i64 sum = 0;
    if (!grid)
    {
        const i64 ns = r.in(1, 3);
        for (i64 k = 0; k < ns; ++k)
        {
            const i64 a = r.in(-q, q), b = r.in(-q, q), re = r.in(-9, 9), im = r.chance(1, 2) ? r.in(-9, 9) : 0;
            for (i64 v : {a, b, re, im}) src.push_back(v);
            const i64 f = (a + c.half) * c.S + b + c.half;
            work.set(f, work.get(f) + cd(re, im));
            sum += std::llabs(re) + std::llabs(im);
        }
        correct(r, p, c, work, false, &st);
        for (i64 k = 0; k < img.n; ++k) img.set(k, work.get(k));
    }
    else for (i64 k = 0; k < vis.n; ++k) sum += (i64) (std::fabs(vis.get(k).real()) + std::fabs(vis.get(k).imag()));
    const std::vector<i64> visq = vis.q();
    // Rows: all, or two ranges that leave out some rows, each with its own call.
    const bool all = r.chance(1, 2);
    i64 cut[4] = {-1, -1, 0, 0};
    if (!all) { cut[0] = r.in(0, num); cut[1] = r.in(cut[0], num); cut[2] = r.in(cut[1], num); cut[3] = r.in(cut[2], num); }
    if (r.chance(1, 2) && !all) { std::swap(cut[0], cut[2]); std::swap(cut[1], cut[3]); }
    uvw.take(); s.take(); e.take();
    if (grid) vis.take(); else img.take();
    const i64 before[2] = {sdp_gridder_wtower_uvw_num_w_planes(p, 0), sdp_gridder_wtower_uvw_num_w_planes(p, 1)};
    const double f0 = c.f0 * C0, df = c.df * C0;
    for (int k = 0; k < (all ? 1 : 2) && !st; ++k)
    {
        if (grid)
            sdp_gridder_wtower_uvw_grid(p, vis.m, uvw.m, s.m, e.m, f0, df, img.m,
                    (int) c.off[0], (int) c.off[1], (int) c.off[2], cut[2 * k], cut[2 * k + 1], &st);
        else
            sdp_gridder_wtower_uvw_degrid(p, img.m, (int) c.off[0], (int) c.off[1], (int) c.off[2],
                    f0, df, uvw.m, s.m, e.m, vis.m, cut[2 * k], cut[2 * k + 1], &st);
    }
    const bool same = uvw.same() && s.same() && e.same() && (grid ? vis.same() && img.gaps_ok() : img.same() && vis.gaps_ok());
    std::vector<i64> pix, post;
    if (grid)
    {
        for (i64 k = 0; k < img.n; ++k) work.set(k, img.get(k));
        correct(r, p, c, work, true, &st);
        for (int k = 0; k < 8; ++k)
        {
            const i64 a = r.in(-q, q), b = r.in(-q, q);
            pix.push_back(a); pix.push_back(b);
            const cd v = work.get((a + c.half) * c.S + b + c.half);
            post.push_back(qr(v.real(), 1e5)); post.push_back(qr(v.imag(), 1e5));
        }
    }
    else post = vis.qround(1e5);
    std::vector<i64> rows = all ? std::vector<i64>{0, num} : std::vector<i64>(cut, cut + 4);
    J j;
    j.t("e", grid ? "Grid" : "Degrid").n("S", c.S).n("num", num).n("nch", nch).n("T", c.T).n("ws", c.ws)
        .n("sup", c.sup).n("wsup", c.wsup).n("ov", c.ov).n("wov", c.wov).n("exact", c.exact).n("D", c.D)
        .n("f0", c.f0).n("df", c.df).n("hu", c.hu).n("hv", c.hv).a("off", std::vector<i64>(c.off, c.off + 3))
        .a("s", s.q()).a("t", e.q()).a("rows", rows).a("uvw", base).a("src", src).a("pix", pix)
        .a("vis", visq).n("err", st).n("same", same).n("sum", sum).n("flt", VT == CF).a("post", post)
        .a("planes", std::vector<i64>{sdp_gridder_wtower_uvw_num_w_planes(p, 0) - before[0],
                sdp_gridder_wtower_uvw_num_w_planes(p, 1) - before[1]});
    if (late) j.t("key", "last-w-kernel-row");
    out.put(j);
    std::vector<i64> got = {sdp_gridder_wtower_uvw_image_size(p), sdp_gridder_wtower_uvw_subgrid_size(p),
            sdp_gridder_wtower_uvw_support(p), sdp_gridder_wtower_uvw_oversampling(p),
            sdp_gridder_wtower_uvw_w_support(p), sdp_gridder_wtower_uvw_w_oversampling(p),
            qx(sdp_gridder_wtower_uvw_theta(p), 1e6), qx(sdp_gridder_wtower_uvw_w_step(p)),
            qx(sdp_gridder_wtower_uvw_shear_u(p), 1e6), qx(sdp_gridder_wtower_uvw_shear_v(p), 1e6)};
    std::vector<i64> want = {c.N, c.S, c.sup, c.ov, c.wsup, c.wov, 1000000 / c.T, c.ws, c.hu, c.hv};
    out.put(J().t("e", "Plan").a("got", got).a("want", want).n("err", 0).n("same", 1));
    sdp_gridder_wtower_uvw_free(p);
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"run", run, 1}}); }
