// RFI flagger.
#include "arr.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"

static cd pt(Rng& r, i64 m)
{
    const cd u = r.pick({cd(1, 0), cd(0, 1), cd(-1, 0), cd(0, -1)});
    if (m % 5 == 0 && r.chance(1, 2)) return u * cd(m / 5 * 3, m / 5 * 4);
    return u * (double) m;
}
static void run(Rng& r, Out& out)
{
    const i64 nt = r.in(1, 5), nb = r.in(1, 3), nch = r.in(1, 9), np = r.in(1, 3);
    const sdp_MemType t = r.pick({SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_FLOAT});
    Arr vis(t, {nt, nb, nch, np}, (int) r.in(0, 1)), flags(SDP_MEM_INT, {nt, nb, nch, np}, (int) r.in(0, 1));
    const i64 base = r.in(0, 6), spread = r.pick({0, 0, 1, 3, 20}), spikes = r.in(0, 8);
    std::vector<i64> mag;
    for (i64 i = 0; i < vis.n; ++i)
    {
        i64 m = base + r.in(0, spread);
        if (r.in(0, 30) < spikes) m = r.in(0, 45);
        mag.push_back(m);
    }
    // Sometimes a whole spectrum jumps.
    if (r.chance(1, 3))
    {
        const i64 tt = r.in(0, nt - 1), add = r.in(1, 20);
        for (i64 b = 0; b < nb; ++b) for (i64 c = 0; c < nch; ++c) for (i64 p = 0; p < np; ++p)
            if (r.chance(9, 10)) mag[((tt * nb + b) * nch + c) * np + p] += add;
    }
    vis.fill([&](i64 i) { return pt(r, mag[i]); });
    const int pre = r.chance(1, 4);
    flags.fill([&](i64) { return cd((double) (pre ? r.in(0, 2) : 0), 0); });
    const i64 a = r.in(0, 4), th[3] = {r.in(0, 60), r.in(0, 60), r.in(0, 60)}; // tenths
    i64 step = r.chance(2, 3) ? 1 : r.in(1, nch), hist = r.chance(1, 2) ? r.in(1, nt) : r.in(1, 8);
    const i64 win = r.chance(1, 2) ? 0 : r.in(1, 4);
    if (r.chance(1, 25)) { step = r.chance(1, 2) ? r.in(-1, 0) : nch + r.in(1, 3); }
    if (r.chance(1, 25)) hist = r.in(-1, 0);
    const std::vector<i64> before = flags.q();
    vis.take();
    sdp_Error st = SDP_SUCCESS;
    sdp_flagger_dynamic_threshold(vis.m, flags.m, a / 4.0, th[0] / 10.0, th[1] / 10.0, th[2] / 10.0,
            (int) step, (int) win, (int) hist, &st);
    out.put(J().t("e", "Flag").n("nt", nt).n("nb", nb).n("nch", nch).n("np", np).n("a", a).n("tm", th[0]).n("tv", th[1])
            .n("tb", th[2]).n("step", step).n("win", win).n("hist", hist).a("mag", mag).a("pre", before)
            .a("post", flags.q()).n("same", vis.same()).n("err", st));
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"run", run, 1}}); }
