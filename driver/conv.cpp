// Convolution of square complex images.
#include "arr.h"
#include "ska-sdp-func/numeric_functions/sdp_fft_convolution.h"

static void conv(Rng& r, Out& out)
{
    const i64 n1 = r.pick({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12}), n2 = r.in(1, n1 > 8 ? 6 : 9);
    const sdp_MemType t = r.chance(1, 2) ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
    Arr a(t, {n1, n1}, (int) r.in(0, 1)), b(t, {n2, n2}, (int) r.in(0, 1)), o(t, {n1, n1}, (int) r.in(0, 1));
    const int d1 = (int) r.pick({1, 5, 10}), d2 = (int) r.pick({1, 5, 10});
    a.fill([&](i64) { return r.chance(d1, 10) ? cd(r.in(-4, 4), r.in(-4, 4)) : cd(0); });
    b.fill([&](i64) { return r.chance(d2, 10) ? cd(r.in(-4, 4), r.in(-4, 4)) : cd(0); });
    if (d1 == 1) a.set(r.in(0, a.n - 1), 1);
    if (d2 == 1) b.set(r.in(0, b.n - 1), 1);
    o.fill([&](i64) { return cd(7, -7); });
    a.take(); b.take();
    sdp_Error st = SDP_SUCCESS;
    sdp_fft_convolution(a.m, b.m, o.m, &st);
    out.put(J().t("e", "Conv").n("n1", n1).n("n2", n2).a("a", a.q()).a("b", b.q())
            .n("err", st).n("scale", 1000).n("tol", t == SDP_MEM_COMPLEX_DOUBLE ? 1 : 10)
            .n("same", a.same() && b.same()).a("out", o.qround(1000)));
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"conv", conv, 1}}); }
