// Fast Fourier transforms: plans, batches, directions, shifting, normalisation.
#include "arr.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"

static i64 size(Rng& r, bool awkward, i64 most)
{
    for (;;)
    {
        const i64 n = awkward ? r.pick({11, 13, 17, 22, 26, 34}) :
                r.pick({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 21, 24, 32, 35});
        if (n <= most) return n;
    }
}

static void fill(Rng& r, Arr& a, i64 m)
{
    const int dens = (int) r.pick({1, 3, 10});
    a.fill([&](i64) {
        return r.chance(dens, 10) ? cd((double) r.in(-m, m), (double) r.in(-m, m)) : cd(0);
    });
    if (dens == 1 && a.n) a.set(r.in(0, a.n - 1), cd(1, 0));
}

static void fft(Rng& r, Out& out)
{
#ifdef NATIVE
    const int maxd = 2;
#else
    const int maxd = 3;
#endif
    const int nd = (int) r.in(1, maxd);
    const bool batched = r.chance(1, 2);
    const bool awkward = nd == 1 && r.chance(1, 4);
    Sh sh, full;
    i64 most = 36;
    for (int i = 0; i < nd; ++i)
    {
        sh.push_back(size(r, awkward, most));
        most = std::max<i64>(1, most / sh.back());
    }
    const i64 nb = batched ? r.in(1, 3) : 1;
    if (batched) full.push_back(nb);
    for (i64 s : sh) full.push_back(s);
    const sdp_MemType t = r.chance(1, 2) ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
    const double tol = t == SDP_MEM_COMPLEX_DOUBLE ? 2 : 6;
    const bool even = nd == 2 && !batched;
    const int fwd = (int) r.in(0, 1);
    const int runs = (int) r.in(1, 2);
    Arr a(t, full, (int) r.in(0, 1)), b(t, full, (int) r.in(0, 1));
    Arr c(t, full, (int) r.in(0, 1)), d(t, full, (int) r.in(0, 1));
    const bool inplace = r.chance(1, 3);
    sdp_Error st = SDP_SUCCESS;
    // A plan may be used again, also with other arrays of the same kind.
    sdp_Fft* plan = sdp_fft_create(a.m, inplace ? a.m : b.m, nd, fwd, &st);
    sdp_Fft* other = sdp_fft_create(a.m, a.m, nd, !fwd, &st);
    for (int k = 0; k < runs; ++k)
    {
        const bool swap = r.chance(1, 2);
        Arr& i = swap ? c : a;
        Arr& o = inplace ? i : (swap ? d : b);
        fill(r, i, 9);
        if (!inplace) o.fill([&](i64) { return cd(r.in(-9, 9), 1); });
        J j;
        const bool shift = even && inplace && r.chance(2, 3);
        const bool norm = shift && r.chance(1, 2);
        j.t("e", "Fft").a("sh", sh).n("nb", nb).n("fwd", fwd).n("shift", shift)
         .n("norm", norm).n("tol", (i64) tol).a("in", i.q());
        i.take();
        if (shift) sdp_fft_exec_shift(plan, i.m, norm, &st);
        else sdp_fft_exec(plan, i.m, o.m, &st);
        out.put(j.n("err", st).a("out", o.qround(1000))
                .n("same", inplace || i.same()));
    }
    sdp_fft_free(other);
    sdp_fft_free(plan);
}

static void helpers(Rng& r, Out& out)
{
    const Sh sh = {r.in(1, 7), r.in(1, 7)};
    Arr a(r.chance(1, 2) ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT, sh, (int) r.in(0, 4));
    for (int k = 0; k < 2; ++k)
    {
        fill(r, a, 99);
        J j;
        sdp_Error st = SDP_SUCCESS;
        j.t("e", k ? "Norm" : "Phase").a("sh", sh).a("in", a.q());
        if (k) sdp_fft_norm(a.m, &st); else sdp_fft_phase(a.m, &st);
        out.put(j.n("err", st).a("out", a.qround(1000)).n("same", a.gaps_ok()));
    }
}

int main(int argc, char** argv)
{
    return driver_main(argc, argv, {{"fft", fft, 4}, {"helpers", helpers, 1}});
}
