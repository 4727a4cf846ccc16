// Tile count, prefix sum, bucket sort and tiled indexing.
#include "arr.h"
#include "ska-sdp-func/visibility/sdp_tiled_functions.h"

static i64 rnd(i64 n, i64 d) // round half away from zero of n / d
{
    return n < 0 ? -((2 * -n + d) / (2 * d)) : (2 * n + d) / (2 * d);
}
static i64 fdiv(i64 a, i64 b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

struct Setup
{
    int G, tu, tv, S, D;
    int tiles(int t) const { return (G + t - 1) / t; }
    int tl(int t) const { return G / 2 - (G / 2) / t * t - t / 2; }
    // Does the sample reach a tile outside the table?
    bool beyond(i64 n, int t) const
    {
        i64 g = rnd(n, D) + G / 2;
        if (g + S >= G || g - S < 0) return false;
        return fdiv(g - tl(t) + S, t) >= tiles(t) || g - tl(t) - S < 0;
    }
};

static void run(Rng& r, Out& out, bool past)
{
    Setup p;
    p.S = (int) r.in(0, 4);
    p.tu = (int) r.pick({2, 3, 4, 5, 6, 8, 16, 32});
    p.tv = (int) r.pick({2, 3, 4, 5, 8, 10, 16});
    p.G = (int) r.in(1, past ? 8 : 40);
    if (past) { p.tu = 1 << r.in(1, 4); p.G = 2 * p.tu * (int) r.in(1, 3) + (r.chance(1, 2) ? p.tu : 0); p.S = 0; }
    p.D = 1 << r.in(0, 3);
    const int nt = (int) r.in(1, 3), nb = (int) r.in(1, 4), nc = (int) r.in(1, 3);
    const double cell = 1.0 / (p.D * (double) p.G);
    Arr uvw(SDP_MEM_DOUBLE, {nt, nb, 3}), freq(SDP_MEM_DOUBLE, {nc});
    Arr vis(SDP_MEM_COMPLEX_DOUBLE, {nt, nb, nc, 1}), wt(SDP_MEM_DOUBLE, {nt, nb, nc, 1});
    std::vector<i64> f, pu, pv, w, vr, vi;
    for (int i = 0; i < nc; ++i) { f.push_back(r.in(1, 3)); freq.set(i, f[i] * C0); }
    const i64 lim = (i64) p.D * (p.G / 2 + 3);
    bool any_past = false;
    for (int i = 0; i < nt * nb; ++i)
    {
        i64 u, v;
        for (int tries = 0;; ++tries)
        {
            u = r.in(-lim, lim); v = r.in(-lim, lim);
            if (i && r.chance(1, 4)) { u = uvw.re(3 * i - 3); v = uvw.re(3 * i - 2); }
            bool b = false;
            for (i64 k : f) b = b || p.beyond(u * k, p.tu) || p.beyond(v * k, p.tv);
            if (!past && b && tries < 1000) continue;
            any_past = any_past || b;
            break;
        }
        uvw.set(3 * i, (double) u); uvw.set(3 * i + 1, (double) v);
        uvw.set(3 * i + 2, (double) r.in(-9, 9));
        for (i64 k : f) { pu.push_back(u * k); pv.push_back(v * k); }
    }
    vis.fill([&](i64) { vr.push_back(r.in(-99, 99)); vi.push_back(r.in(-99, 99));
        return cd((double) vr.back(), (double) vi.back()); });
    wt.fill([&](i64) { w.push_back(r.in(1, 99)); return (double) w.back(); });
    if (any_past) set_key("tile-outside-table");
    const i64 ntile = (i64) p.tiles(p.tu) * p.tiles(p.tv);
    Arr offs(SDP_MEM_INT, {ntile + 1}), cnt(SDP_MEM_INT, {ntile}), skip(SDP_MEM_INT, {1});
    const bool dirty = r.chance(1, 2);
    if (dirty)
    {
        offs.fill([](i64) { return 77.0; }); cnt.fill([](i64) { return 77.0; });
        skip.set(0, 77.0);
    }
    uvw.take(); freq.take(); vis.take(); wt.take();
    sdp_Error st = SDP_SUCCESS;
    int nvis = -1;
    sdp_count_and_prefix_sum(uvw.m, freq.m, vis.m, p.G, p.tu, p.tv, cell, p.S, &nvis,
            offs.m, cnt.m, skip.m, &st);
    J j;
    j.t("e", "Count").n("err", st).n("G", p.G).n("tu", p.tu).n("tv", p.tv).n("S", p.S)
     .n("D", p.D).a("u", pu).a("v", pv).n("nvis", nvis).a("offs", offs.q())
     .a("cnt", cnt.q()).n("skip", (i64) skip.re(0));
    if (any_past) j.t("key", "tile-outside-table");
    out.put(j);
    if (st || nvis < 0 || nvis > 100000) return;
    if (nvis == 0) return;
    Arr suu(SDP_MEM_DOUBLE, {nvis}), svv(SDP_MEM_DOUBLE, {nvis}), sw(SDP_MEM_DOUBLE, {nvis});
    Arr stile(SDP_MEM_INT, {nvis}), svis(SDP_MEM_COMPLEX_DOUBLE, {nvis}), sidx(SDP_MEM_INT, {nvis});
    auto junk = [](Arr& a) { a.fill([](i64) { return -5.0; }); };
    junk(suu); junk(svv); junk(sw); junk(stile); junk(svis); junk(sidx);
    const bool index = r.chance(1, 3);
    Arr o2(SDP_MEM_INT, {ntile + 1});
    for (i64 i = 0; i <= ntile; ++i) o2.set(i, offs.get(i));
    if (index)
        sdp_tiled_indexing(uvw.m, freq.m, p.G, p.tu, p.tv, cell, p.S, nc, nb, nt,
                stile.m, suu.m, svv.m, sidx.m, o2.m, &st);
    else
        sdp_bucket_sort(uvw.m, freq.m, vis.m, wt.m, p.G, p.tu, p.tv, cell, p.S,
                suu.m, svv.m, sw.m, stile.m, svis.m, o2.m, &st);
    J k;
    k.t("e", index ? "Index" : "Sort").n("err", st).a("w", w).a("vr", vr).a("vi", vi)
     .a("uu", suu.q(p.D)).a("vv", svv.q(p.D)).a("tile", stile.q()).a("offs", o2.q())
     .a("sw", sw.q()).a("svis", svis.q()).a("sidx", sidx.q())
     .n("same", uvw.same() && freq.same() && vis.same() && wt.same());
    if (any_past) k.t("key", "tile-outside-table");
    out.put(k);
}
static void normal(Rng& r, Out& o) { run(r, o, false); }
static void past(Rng& r, Out& o) { run(r, o, true); }

int main(int argc, char** argv)
{
    return driver_main(argc, argv, {{"tiles", normal, 30}, {"past", past, 1}});
}
