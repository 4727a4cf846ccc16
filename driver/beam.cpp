// Station beams and element patterns.
#include "arr.h"
#include "ska-sdp-func/station_beam/sdp_element_dipole.h"
#include "ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.h"
#include "ska-sdp-func/station_beam/sdp_station.h"

static int lay(Rng& r) { return (int) r.in(0, 1); }
static void station(Rng& r, Out& out)
{
    const bool dbl = r.chance(1, 2);
    const sdp_MemType t = dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT,
            tc = dbl ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
    const i64 ne = r.in(0, 5) ? r.in(1, 6) : r.in(7, 12), n = r.in(1, 5), off = r.in(0, 3), offs = r.in(0, 3);
    const i64 np = r.pick({1, 4}), tot = off + n + r.in(0, 2), nout = offs + n + r.in(0, 2);
    const i64 den = r.pick({4, 8, 12, 20, 63, 360, 1008});
    const i64 k = r.in(1, 3), lim = dbl ? 40 : 4;
    const bool z = r.chance(2, 3), data = r.chance(3, 4), useidx = data && r.chance(1, 2);
    const bool norm = r.chance(1, 2);
    const int ex = (int) r.in(0, 1), ey = (int) r.in(0, 1);
    const i64 rows = useidx ? r.in(1, ne) : ne;
    std::vector<i64> px, py, pz, idx;
    Arr x(t, {ne}, lay(r)), y(t, {ne}, lay(r)), zz(t, {ne}, lay(r)), w(tc, {ne}, lay(r));
    Arr ax(t, {tot}, lay(r)), ay(t, {tot}, lay(r)), az(t, {tot}, lay(r));
    for (Arr* a : {&x, &y, &zz}) a->fill([&](i64) { return r.in(-lim, lim); });
    w.fill([&](i64) { return cd(r.in(-5, 5), r.in(-5, 5)); });
    ax.fill([&](i64) { i64 v = r.in(-9, 9); px.push_back(v); return (double) v / den; });
    ay.fill([&](i64) { i64 v = r.in(-9, 9); py.push_back(v); return (double) v / den; });
    az.fill([&](i64) { i64 v = r.in(-9, 9); pz.push_back(v); return (double) v / den; });
    Arr eb(tc, np == 1 ? (r.chance(1, 2) ? Sh{rows, n} : Sh{rows, n, 1})
            : (r.chance(1, 2) ? Sh{rows, n, 4} : Sh{rows, n, 2, 2}), lay(r));
    eb.fill([&](i64) { return cd(r.in(-3, 3), r.in(-3, 3)); });
    Arr ix(SDP_MEM_INT, {ne}, lay(r));
    ix.fill([&](i64) { i64 v = r.in(0, rows - 1); idx.push_back(v); return (double) v; });
    Arr beam(tc, np == 1 ? (r.chance(1, 2) ? Sh{nout} : Sh{nout, 1})
            : (r.chance(1, 2) ? Sh{nout, 4} : Sh{nout, 2, 2}), lay(r));
    beam.fill([&](i64) { return cd(77, 77); });
    sdp_Error st = SDP_SUCCESS;
    const i64 zero[] = {0};
    sdp_Mem* none = sdp_mem_create_wrapper(0, SDP_MEM_VOID, SDP_MEM_CPU, 0, zero, 0, &st);
    for (Arr* a : {&x, &y, &zz, &w, &ax, &ay, &az, &eb, &ix}) a->take();
    sdp_station_beam_aperture_array(2 * M_PI * k, w.m, x.m, y.m, zz.m, (int) off, (int) n, ax.m, ay.m,
            z ? az.m : none, useidx ? ix.m : none, data ? eb.m : none, (int) offs, beam.m, norm, ex, ey, &st);
    bool same = true;
    for (Arr* a : {&x, &y, &zz, &w, &ax, &ay, &az, &eb, &ix}) same = same && a->same();
    out.put(J().t("e", "Station").n("ne", ne).n("n", n).n("off", off).n("offs", offs).n("np", np)
            .n("nout", nout).n("den", den).n("k", k).n("z", z).n("data", data).n("useidx", useidx)
            .n("norm", norm).n("x", ex).n("y", ey).a("px", px).a("py", py).a("pz", pz).a("idx", idx)
            .a("ex", x.q()).a("ey", y.q()).a("ez", zz.q()).a("w", w.q()).a("eb", eb.q())
            .n("err", st).n("same", same).n("tol", dbl ? 8 : 700).a("out", beam.qround(1e5)));
    sdp_mem_free(none);
}
static void dipole(Rng& r, Out& out)
{
    const bool dbl = r.chance(2, 3);
    const sdp_MemType t = dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT,
            tc = dbl ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
    const i64 np = r.pick({1, 4}), n = r.in(1, 8), offs = r.in(0, 5),
            stride = np == 4 ? r.pick({2, 3, 4, 4, 8}) : r.in(1, 4);
    const i64 den = r.pick({4, 8, 12, 24, 60, 360}), kl = r.pick({1000, 50000, 125000, 250000, 300000, 500000, 777000});
    i64 nout = offs + n * stride + r.in(0, 3);
    if (np == 4) nout = (nout + 3) / 4 * 4;
    std::vector<i64> th, ph;
    Arr at(t, {n}, lay(r)), ap(t, {n}, lay(r)), b(tc, np == 4 ? (r.chance(1, 2) ? Sh{nout / 4, 4} : Sh{nout / 4, 2, 2}) : Sh{nout}, lay(r));
    at.fill([&](i64) { i64 v = r.in(0, den / 2); th.push_back(v); return 2 * M_PI * v / den; });
    ap.fill([&](i64) { i64 v = r.in(-den, den); ph.push_back(v); return 2 * M_PI * v / den; });
    b.fill([&](i64) { return cd(77, 77); });
    at.take(); ap.take();
    const double f = r.pick({1e7, 1e8, 2.5e8});
    sdp_Error st = SDP_SUCCESS;
    // kl: length * pi * frequency / c, in millionths of a turn.
    const double len = 2 * kl * 1e-6 * C0 / f;
    sdp_element_beam_dipole((int) n, at.m, ap.m, f, len, (int) stride, (int) offs, b.m, &st);
    out.put(J().t("e", "Dipole").n("np", np).n("n", n).n("offs", offs).n("stride", stride).n("den", den)
            .n("kl", kl).n("nout", nout).a("th", th).a("ph", ph).n("err", st)
            .n("same", at.same() && ap.same()).n("tol", 60).a("out", b.qround(1e5)));
}
static void sph(Rng& r, Out& out)
{
    const bool dbl = r.chance(2, 3);
    const sdp_MemType t = dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT,
            tc = dbl ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
    const i64 lmax = r.chance(1, 6) ? r.in(4, 6) : r.in(1, 3), n = r.in(1, 4), offs = r.in(0, 3), nout = offs + n + r.in(0, 2);
    const i64 den = r.pick({4, 8, 12, 24, 60, 360}), nm = lmax * lmax + 2 * lmax;
    std::vector<i64> th, fx, fy, nan;
    Arr at(t, {n}, lay(r)), ax(t, {n}, lay(r)), ay(t, {n}, lay(r)), co(tc, {nm, 4}, lay(r)),
        b(tc, r.chance(1, 2) ? Sh{nout, 4} : Sh{nout, 2, 2}, lay(r));
    at.fill([&](i64) { i64 v = r.in(0, den / 2); th.push_back(v); return 2 * M_PI * v / den; });
    ax.fill([&](i64) {
        i64 v = r.in(-den, den); fx.push_back(v); nan.push_back(r.chance(1, 12));
        return nan.back() ? NAN : 2 * M_PI * v / den; });
    ay.fill([&](i64) { i64 v = r.in(-den, den); fy.push_back(v); return 2 * M_PI * v / den; });
    const bool sparse = r.chance(1, 2);
    co.fill([&](i64) { return sparse && !r.chance(1, 6) ? cd(0, 0) : cd(r.in(-3, 3), r.in(-3, 3)); });
    b.fill([&](i64) { return cd(77, 77); });
    at.take(); ax.take(); ay.take(); co.take();
    sdp_Error st = SDP_SUCCESS;
    sdp_element_beam_spherical_wave_harp((int) n, at.m, ax.m, ay.m, (int) lmax, co.m, (int) offs, b.m, &st);
    out.put(J().t("e", "Sph").n("n", n).n("lmax", lmax).n("offs", offs).n("nout", nout).n("den", den)
            .a("th", th).a("fx", fx).a("fy", fy).a("nan", nan).a("co", co.q()).n("err", st)
            .n("same", at.same() && ax.same() && ay.same() && co.same())
            .n("tol", (dbl ? 20 : 60) * (sparse ? 1 : 2)).a("out", b.qround(1e5)));
}
int main(int argc, char** argv)
{
    return driver_main(argc, argv, {{"station", station, 3}, {"dipole", dipole, 2}, {"sph", sph, 2}});
}
