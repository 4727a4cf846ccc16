// Prolate spheroidal wave functions: evaluation and tables.
#include "arr.h"
#include "sci.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"

static const sdp_MemType D = SDP_MEM_DOUBLE, F = SDP_MEM_FLOAT, CD = SDP_MEM_COMPLEX_DOUBLE,
        CF = SDP_MEM_COMPLEX_FLOAT;
static void run(Rng& r, Out& out)
{
    const i64 m = r.pick({0, 0, 0, 0, 1, 2}), s = r.chance(1, 12) ? 0 : r.chance(1, 3) ? r.in(1, 250) : 10 * r.in(1, 20);
    const double c = M_PI * s / 20.0;
    sdp_Pswf* p = sdp_pswf_create((int) m, c);
    const double peak = m == 2 ? 3 : 1;
    std::vector<i64> ev;
    for (int k = 0; k <= 64; ++k)
    {
        const double x = k == 64 ? 1 - 1e-12 : k / 64.0;
        ev.push_back(qr(sdp_pswf_evaluate(p, r.chance(1, 2) ? x : -x), 1e6 / peak));
    }
    out.put(J().t("e", "Create").n("m", m).n("s", s).a("ev", ev)
            .n("par_c", qx(sdp_pswf_par_c(p) / M_PI, 20)).n("par_m", qx(sdp_pswf_par_m(p)))
            .a("end", std::vector<i64>{qr(sdp_pswf_evaluate(p, 1.0), 1e6), qr(sdp_pswf_evaluate(p, -1.0), 1e6),
                qr(sdp_pswf_evaluate(p, 1.0 + r.unit()), 1e6), qr(sdp_pswf_evaluate(p, -1.5), 1e6)}));
    const int steps = (int) r.in(1, 4);
    for (int k = 0; k < steps; ++k)
    {
        const i64 size = r.chance(1, 3) ? r.in(1, 5) : r.in(1, 40);
        const int endc = (int) r.in(0, 1), mode = (int) r.in(0, 9); // 0 both, 1 neither
        sdp_Error st = SDP_SUCCESS;
        std::vector<i64> vals, ref;
        const sdp_MemType t = r.pick({D, F, CD, CF, D, SDP_MEM_INT});
        const bool simple = mode >= 6 && r.chance(1, 3) && !endc; // sdp_generate_pswf
        Arr a(t, {size}, (int) r.in(0, 3));
        a.fill([&](i64) { return cd(7, 7); });
        if (mode < 2) sdp_pswf_generate(p, mode == 0 ? a.m : 0, mode == 0 ? (int) size : 0, endc, &st);
        else if (mode < 6) sdp_pswf_generate(p, 0, (int) size, endc, &st);
        else if (simple) sdp_generate_pswf((int) m, c, a.m, &st);
        else sdp_pswf_generate(p, a.m, 0, endc, &st);
        i64 imag = 0;
        if (mode >= 6)
            for (i64 i = 0; i < size; ++i)
            {
                sci(vals, a.re(i));
                if (a.get(i).imag() != 0 && !st) imag++;
            }
        for (i64 i = 0; i < size; ++i) sci(ref, sdp_pswf_evaluate(p, 2.0 * (i - size / 2) / size));
        const sdp_Mem* v = sdp_pswf_values(p, SDP_MEM_CPU, &st);
        std::vector<i64> cache;
        const i64 nc = v ? sdp_mem_num_elements(v) : 0;
        if (v) for (i64 i = 0; i < nc; ++i) sci(cache, ((const double*) sdp_mem_data_const(v))[i]);
        out.put(J().t("e", "Gen").n("mode", mode < 2 ? 0 : mode < 6 ? 1 : 2).n("int", t == SDP_MEM_INT).n("size", size).n("endc", endc)
                .n("dbl", t == D || t == CD).n("imag", imag).a("vals", vals).a("ref", ref).a("cache", cache).n("nc", nc)
                .n("gaps", a.gaps_ok()).n("err", st));
    }
    sdp_pswf_free(p);
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"run", run, 1}}); }
