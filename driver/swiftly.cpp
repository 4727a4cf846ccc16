// Streaming distributed Fourier transform: every step on its own, and whole transforms.
#include "arr.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"

static const double U = 10000;
static const sdp_MemType CD = SDP_MEM_COMPLEX_DOUBLE;
struct Cfg { i64 n, yn, xm; double w; i64 m() const { return xm * yn / n; } };

static Cfg config(Rng& r, i64 most)
{
    static const i64 c[][3] = {{8, 4, 4}, {12, 6, 6}, {12, 6, 4}, {16, 8, 4}, {16, 8, 8}, {12, 12, 6},
        {12, 6, 12}, {12, 12, 12}, {20, 10, 10}, {24, 12, 8}, {24, 8, 12}, {24, 12, 6}, {36, 12, 18},
        {36, 18, 6}, {48, 16, 12}, {48, 24, 16}, {40, 20, 8}, {32, 16, 8}};
    for (;;)
    {
        const i64* q = c[r.in(0, 17)];
        if (q[0] <= most) return {q[0], q[1], q[2], r.in(8, 24) / 8.0};
    }
}

static std::vector<double> window(const Cfg& c)
{
    std::vector<double> w(c.yn);
    sdp_Error st = SDP_SUCCESS;
    sdp_Mem* m = sdp_mem_create_wrapper(w.data(), SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, &c.yn, 0, &st);
    sdp_generate_pswf(0, c.w * (M_PI / 2), m, &st);
    sdp_mem_free(m);
    return w;
}

static void fill(Rng& r, Arr& a)
{
    const int dens = (int) r.pick({1, 4, 10});
    a.fill([&](i64) {
        return r.chance(dens, 10) ? cd((double) r.in(-3, 3), (double) r.in(-3, 3)) : cd(0);
    });
}

static const char* OPS[] = {"PrepareFacet", "ExtractFromFacet", "AddToSubgrid", "AddToSubgrid2d",
    "FinishSubgrid", "FinishSubgridInplace", "FinishSubgridInplace2d", "PrepareSubgridInplace",
    "PrepareSubgridInplace2d", "ExtractFromSubgrid", "ExtractFromSubgrid2d", "AddToFacet",
    "FinishFacet"};

static void step(Rng& r, Out& out)
{
    const std::string op = OPS[r.in(0, 12)];
    const bool two = op.find("2d") != std::string::npos;
    const bool inplace = op.find("Inplace") != std::string::npos;
    const Cfg c = config(r, two ? 24 : 48);
    const i64 nr = r.in(1, 3), M = c.m();
    i64 ca = c.xm, cb = c.xm, step = c.n / c.yn;
    if (op == "PrepareFacet") { ca = r.in(1, c.yn); cb = c.yn; step = c.n / c.xm; }
    if (op == "FinishFacet") { ca = c.yn; cb = r.in(1, c.yn); step = c.n / c.xm; }
    if (op == "PrepareFacet" || op == "FinishFacet") step = r.chance(1, 2) ? step : 1;
    if (op == "ExtractFromFacet") { ca = c.yn; cb = M; }
    if (op == "AddToFacet") { ca = M; cb = c.yn; }
    if (op.find("AddToSubgrid") == 0) { ca = M; step = c.n / c.xm; }
    if (op.find("ExtractFromSubgrid") == 0) { cb = M; step = c.n / c.xm; }
    if (op == "FinishSubgrid") cb = r.in(1, c.xm);
    if (op.find("FinishSubgrid") == 0 || op.find("PrepareSubgrid") == 0) step = 1;
    Arr a(CD, {two ? ca : nr, ca}, (int) r.in(0, 4));
    Arr b2(CD, {two ? cb : nr, cb}, (int) r.in(0, 4));
    Arr& b = inplace ? a : b2;
    fill(r, a);
    fill(r, b);
    const i64 far = r.pick({1, 1, 3});
    const i64 o[2] = {step * r.in(-far * c.n / step, far * c.n / step),
        step * r.in(-far * c.n / step, far * c.n / step)};
    std::vector<double> w = window(c);
    std::vector<i64> wq, fq;
    double most = 1;
    for (i64 i = 0; i < c.yn; ++i)
    {
        wq.push_back(qr(w[i], 1e6));
        fq.push_back(i ? qr(1 / w[i], U) : 0);
        if (i) most = std::max(most, 1 / w[i]);
    }
    sdp_Error st = SDP_SUCCESS;
    sdp_SwiFTly* p = sdp_swiftly_create(c.n, c.yn, c.xm, c.w, &st);
    std::vector<i64> sizes = {sdp_swiftly_get_image_size(p), sdp_swiftly_get_facet_size(p),
        sdp_swiftly_get_subgrid_size(p)};
    J j;
    double tol = 6 + 2.0 * c.yn;
    if (op == "PrepareFacet") tol *= most;
    if (op == "FinishFacet") tol *= 2 * most;
    if (two) tol *= 3;
    j.t("e", "Op").t("op", op).n("n", c.n).n("yn", c.yn).n("xm", c.xm).a("sizes", sizes)
     .a("w", wq).a("fb", fq).a("off", std::vector<i64>{o[0], o[1]})
     .n("ra", a.shape[0]).n("ca", ca).n("rb", b.shape[0]).n("cb", cb)
     .a("a", a.q()).a("b", b.q()).n("tol", (i64) tol);
    a.take();
    if (op == "PrepareFacet") sdp_swiftly_prepare_facet(p, a.m, b.m, o[0], &st);
    if (op == "ExtractFromFacet") sdp_swiftly_extract_from_facet(p, a.m, b.m, o[0], &st);
    if (op == "AddToSubgrid") sdp_swiftly_add_to_subgrid(p, a.m, b.m, o[0], &st);
    if (op == "AddToSubgrid2d") sdp_swiftly_add_to_subgrid_2d(p, a.m, b.m, o[0], o[1], &st);
    if (op == "FinishSubgrid") sdp_swiftly_finish_subgrid(p, a.m, b.m, o[0], &st);
    if (op == "FinishSubgridInplace") sdp_swiftly_finish_subgrid_inplace(p, a.m, o[0], &st);
    if (op == "FinishSubgridInplace2d") sdp_swiftly_finish_subgrid_inplace_2d(p, a.m, o[0], o[1], &st);
    if (op == "PrepareSubgridInplace") sdp_swiftly_prepare_subgrid_inplace(p, a.m, o[0], &st);
    if (op == "PrepareSubgridInplace2d") sdp_swiftly_prepare_subgrid_inplace_2d(p, a.m, o[0], o[1], &st);
    if (op == "ExtractFromSubgrid") sdp_swiftly_extract_from_subgrid(p, a.m, b.m, o[0], &st);
    if (op == "ExtractFromSubgrid2d") sdp_swiftly_extract_from_subgrid_2d(p, a.m, b.m, o[0], o[1], &st);
    if (op == "AddToFacet") sdp_swiftly_add_to_facet(p, a.m, b.m, o[0], &st);
    if (op == "FinishFacet") sdp_swiftly_finish_facet(p, a.m, b.m, o[0], &st);
    // Finishing a facet uses its input as work space.
    const bool same = (inplace || op == "FinishFacet" || a.same()) && a.gaps_ok() && b.gaps_ok();
    out.put(j.n("err", st).n("same", same).a("out", b.qround(U)));
    sdp_swiftly_free(p);
}

static void transp(const Arr& a, Arr& b)
{
    for (i64 i = 0; i < a.shape[0]; ++i)
        for (i64 k = 0; k < a.shape[1]; ++k) b.set(k * a.shape[0] + i, a.get(i * a.shape[1] + k));
}

// A multiple of the step from the facet's centre that is inside its n pixels.
static i64 pixel(Rng& r, const Cfg& c, i64 n)
{
    for (;;)
    {
        const i64 s = c.n / c.xm, y = s * r.in(-n / s, n / s);
        if (y + n / 2 >= 0 && y + n / 2 < n && 2 * y > -c.yn && 2 * y < c.yn) return y;
    }
}

static void chain(Rng& r, Out& out)
{
    const bool two = r.chance(1, 2), both = r.chance(1, 2);
    const Cfg c = config(r, two ? 24 : 48);
    const i64 M = c.m(), S = c.n / c.xm, T = c.n / c.yn;
    sdp_Error st = SDP_SUCCESS;
    sdp_SwiFTly* p = sdp_swiftly_create(c.n, c.yn, c.xm, c.w, &st);
    const i64 so[2] = {two ? T * r.in(-c.yn, c.yn) : 0, T * r.in(-c.yn, c.yn)};
    const i64 nr = two ? c.xm : 1;
    Arr sg(CD, {nr, c.xm}, (int) r.in(0, 4));
    sg.fill([](i64) { return cd(0); });
    std::vector<std::vector<i64> > pix;
    const int nf = (int) r.in(1, 3);
    bool ok = true;
    for (int f = 0; f < nf; ++f)
    {
        const i64 fo[2] = {two ? S * r.in(-c.xm, c.xm) : 0, S * r.in(-c.xm, c.xm)};
        const i64 n = r.in(std::max<i64>(1, c.yn / 2), c.yn);
        Arr facet(CD, {two ? n : 1, n}, (int) r.in(0, 4));
        facet.fill([](i64) { return cd(0); });
        for (i64 k = r.in(1, 3); k; --k)
        {
            const i64 y0 = two ? pixel(r, c, n) : 0, y1 = pixel(r, c, n), v = r.in(-3, 3);
            const i64 at = (two ? y0 + n / 2 : 0) * n + y1 + n / 2;
            facet.set(at, facet.get(at) + (double) v);
            pix.push_back({fo[0] + y0, fo[1] + y1, v});
        }
        // Axis 1, then (transposed) axis 0.
        Arr pf(CD, {facet.shape[0], c.yn}, (int) r.in(0, 4)), cn(CD, {facet.shape[0], M}, (int) r.in(0, 4));
        sdp_swiftly_prepare_facet(p, facet.m, pf.m, fo[1], &st);
        sdp_swiftly_extract_from_facet(p, pf.m, cn.m, so[1], &st);
        ok = ok && pf.gaps_ok() && cn.gaps_ok() && facet.gaps_ok();
        if (!two) { sdp_swiftly_add_to_subgrid(p, cn.m, sg.m, fo[1], &st); continue; }
        Arr ct(CD, {M, n}, 0), pt(CD, {M, c.yn}, (int) r.in(0, 4)), c2(CD, {M, M}, (int) r.in(0, 4));
        transp(cn, ct);
        sdp_swiftly_prepare_facet(p, ct.m, pt.m, fo[0], &st);
        sdp_swiftly_extract_from_facet(p, pt.m, c2.m, so[0], &st);
        Arr c3(CD, {M, M}, (int) r.in(0, 4));
        transp(c2, c3);
        sdp_swiftly_add_to_subgrid_2d(p, c3.m, sg.m, fo[0], fo[1], &st);
    }
    if (!two && both)
    {
        Arr o(CD, {1, c.xm}, (int) r.in(0, 4));
        sdp_swiftly_finish_subgrid(p, sg.m, o.m, so[1], &st);
        for (i64 i = 0; i < c.xm; ++i) sg.set(i, o.get(i));
    }
    else if (!two) sdp_swiftly_finish_subgrid_inplace(p, sg.m, so[1], &st);
    else sdp_swiftly_finish_subgrid_inplace_2d(p, sg.m, so[0], so[1], &st);
    const double scale = U * c.n * (two ? c.n : 1);
    out.put(J().t("e", "Chain").n("n", c.n).n("yn", c.yn).n("xm", c.xm)
            .a("off", std::vector<i64>{so[0], so[1]}).aa("pix", pix).n("rb", nr).n("cb", c.xm)
            .n("tol", 20).n("err", st).n("same", ok && sg.gaps_ok()).a("out", sg.qround(scale)));
    sdp_swiftly_free(p);
}

static void back(Rng& r, Out& out)
{
    const bool two = r.chance(1, 2);
    const Cfg c = config(r, two ? 24 : 48);
    const i64 M = c.m(), S = c.n / c.xm, T = c.n / c.yn;
    sdp_Error st = SDP_SUCCESS;
    sdp_SwiFTly* p = sdp_swiftly_create(c.n, c.yn, c.xm, c.w, &st);
    const i64 fo[2] = {two ? S * r.in(-c.xm, c.xm) : 0, S * r.in(-c.xm, c.xm)};
    const i64 n = r.in(std::max<i64>(1, c.yn / 2), c.yn);
    Arr facet(CD, {two ? n : 1, n}, (int) r.in(0, 4));
    std::vector<std::vector<i64> > pix;
    Arr pf(CD, {two ? M : 1, c.yn}, (int) r.in(0, 4));
    const int ns = (int) r.in(1, 3);
    // Sub-grids in one column share the offset of axis 1, so that axis 0 can be finished first.
    const i64 so1 = T * r.in(-c.yn, c.yn);
    pf.fill([](i64) { return cd(0); });
    bool ok = true;
    for (int k = 0; k < ns; ++k)
    {
        const i64 so[2] = {two ? T * r.in(-c.yn, c.yn) : 0, two ? so1 : T * r.in(-c.yn, c.yn)};
        Arr sg(CD, {two ? c.xm : 1, c.xm}, (int) r.in(0, 4));
        sg.fill([](i64) { return cd(0); });
        for (i64 q = r.in(1, 3); q; --q)
        {
            const i64 x0 = two ? r.in(0, c.xm - 1) : 0, x1 = r.in(0, c.xm - 1), v = r.in(-3, 3);
            sg.set(x0 * c.xm + x1, sg.get(x0 * c.xm + x1) + (double) v);
            pix.push_back({two ? so[0] + x0 - c.xm / 2 : 0, so[1] + x1 - c.xm / 2, v});
        }
        if (!two)
        {
            Arr cn(CD, {1, M}, (int) r.in(0, 4));
            sdp_swiftly_prepare_subgrid_inplace(p, sg.m, so[1], &st);
            sdp_swiftly_extract_from_subgrid(p, sg.m, cn.m, fo[1], &st);
            sdp_swiftly_add_to_facet(p, cn.m, pf.m, so[1], &st);
            continue;
        }
        Arr c2(CD, {M, M}, (int) r.in(0, 4)), ct(CD, {M, M}, (int) r.in(0, 4));
        sdp_swiftly_prepare_subgrid_inplace_2d(p, sg.m, so[0], so[1], &st);
        sdp_swiftly_extract_from_subgrid_2d(p, sg.m, c2.m, fo[0], fo[1], &st);
        transp(c2, ct);
        sdp_swiftly_add_to_facet(p, ct.m, pf.m, so[0], &st);
        ok = ok && sg.gaps_ok() && c2.gaps_ok();
    }
    if (!two) sdp_swiftly_finish_facet(p, pf.m, facet.m, fo[1], &st);
    else
    {
        Arr h(CD, {M, n}, (int) r.in(0, 4)), ht(CD, {n, M}, (int) r.in(0, 4));
        sdp_swiftly_finish_facet(p, pf.m, h.m, fo[0], &st);
        transp(h, ht);
        Arr p1(CD, {n, c.yn}, (int) r.in(0, 4));
        p1.fill([](i64) { return cd(0); });
        sdp_swiftly_add_to_facet(p, ht.m, p1.m, so1, &st);
        sdp_swiftly_finish_facet(p, p1.m, facet.m, fo[1], &st);
    }
    out.put(J().t("e", "Back").n("n", c.n).n("yn", c.yn).n("xm", c.xm)
            .a("off", std::vector<i64>{fo[0], fo[1]}).aa("pix", pix)
            .n("rb", facet.shape[0]).n("cb", n).n("tol", 20).n("err", st)
            .n("same", ok && facet.gaps_ok() && pf.gaps_ok()).a("out", facet.qround(U)));
    sdp_swiftly_free(p);
}

int main(int argc, char** argv)
{
    return driver_main(argc, argv, {{"step", step, 4}, {"chain", chain, 1}, {"back", back, 1}});
}
