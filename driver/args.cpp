// Every processing function called with valid arguments, with some of them broken,
// and with a status that already holds an error: which code comes back, and is any
// output touched? The calls of one script share one status, as in a chain of calls.
#include "arr.h"
#include "script.h"
#include "ska-sdp-func/clean/sdp_hogbom_clean.h"
#include "ska-sdp-func/clean/sdp_ms_clean_cornwell.h"
#include "ska-sdp-func/examples/sdp_function_example_a.h"
#include "ska-sdp-func/examples/sdp_vector_add.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"
#include "ska-sdp-func/grid_data/sdp_degrid_uvw_custom.h"
#include "ska-sdp-func/grid_data/sdp_grid_wstack_wtower.h"
#include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_height.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/numeric_functions/sdp_fft_convolution.h"
#include "ska-sdp-func/station_beam/sdp_element_dipole.h"
#include "ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.h"
#include "ska-sdp-func/station_beam/sdp_station.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
#include "ska-sdp-func/visibility/sdp_opt_weighting.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"
#include "ska-sdp-func/visibility/sdp_tiled_functions.h"
#include "ska-sdp-func/visibility/sdp_weighting.h"
#include <memory>

// One argument: kind of element R/C (real/complex of the call's precision), D/Z (real/complex
// double always), S (float always), I (int); role i (input) or o (written).
struct AS { const char* name; char ty; Sh shape; char role; std::function<cd(i64)> val; };
struct Call
{
    std::vector<std::unique_ptr<Arr> > arr;
    std::vector<sdp_Mem*> m;
    std::map<std::string, double> sc;
    char prec;
    sdp_Error* st;
    double s(const char* n, double def) const { auto i = sc.find(n); return i == sc.end() ? def : i->second; }
    int i(const char* n, int def) const { return (int) s(n, def); }
};
struct F { std::vector<AS> args; std::function<void(Call&)> call; };
static std::map<std::string, F> reg;
static std::function<cd(i64)> K(double re, double im = 0) { return [=](i64) { return cd(re, im); }; }
static std::function<cd(i64)> ramp() { return [](i64 i) { return cd(i % 7 + 1, i % 3); }; }
static std::function<cd(i64)> list(std::vector<double> v) { return [=](i64 i) { return cd(v[i % v.size()]); }; }
static const std::function<cd(i64)> junk = [](i64 i) { return cd(40 + i % 5, 3); };

static void build()
{
    reg["hogbom"] = {{{"dirty", 'R', {8, 8}, 'i', ramp()}, {"psf", 'R', {16, 16}, 'i', [](i64 i) { return i == 8 * 16 + 8 ? 1. : .125; }},
            {"cbeam", 'R', {4}, 'i', list({1, 1, 0, 8})}, {"model", 'R', {8, 8}, 'o', junk}, {"residual", 'R', {8, 8}, 'o', junk},
            {"skymodel", 'R', {8, 8}, 'o', junk}},
        [](Call& c) { sdp_hogbom_clean(c.m[0], c.m[1], c.m[2], c.s("gain", 0.5), 0.1, c.i("cycles", 2), c.m[3], c.m[4], c.m[5], c.st); }};
    reg["msclean"] = {{{"dirty", 'R', {8, 8}, 'i', ramp()}, {"psf", 'R', {16, 16}, 'i', [](i64 i) { return i == 8 * 16 + 8 ? 1. : .125; }},
            {"cbeam", 'R', {4}, 'i', list({1, 1, 0, 8})}, {"scales", 'I', {2}, 'i', list({0, 2})},
            {"model", 'R', {8, 8}, 'o', junk}, {"residual", 'R', {8, 8}, 'o', junk}, {"skymodel", 'R', {8, 8}, 'o', junk}},
        [](Call& c) { sdp_ms_clean_cornwell(c.m[0], c.m[1], c.m[2], c.m[3], c.s("gain", 0.5), 0.1, c.i("cycles", 2), c.m[4], c.m[5], c.m[6], c.st); }};
    reg["fft_create"] = {{{"in", 'C', {4, 6}, 'i', ramp()}, {"out", 'C', {4, 6}, 'o', junk}},
        [](Call& c) { sdp_fft_free(sdp_fft_create(c.m[0], c.m[1], c.i("dims", 2), 1, c.st)); }};
    reg["fft_exec"] = {{{"in", 'C', {4, 6}, 'i', ramp()}, {"out", 'C', {4, 6}, 'o', junk}},
        [](Call& c) {
            sdp_MemType t = c.prec == 'd' ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
            Arr a(t, {4, 6}), b(t, {4, 6}); sdp_Error e = SDP_SUCCESS;
            sdp_Fft* p = sdp_fft_create(a.m, b.m, 2, 1, &e);
            sdp_fft_exec(p, c.m[0], c.m[1], c.st); sdp_fft_free(p); }};
    reg["fft_exec_shift"] = {{{"data", 'C', {4, 6}, 'o', ramp()}},
        [](Call& c) {
            sdp_MemType t = c.prec == 'd' ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
            Arr a(t, {4, 6}); sdp_Error e = SDP_SUCCESS;
            sdp_Fft* p = sdp_fft_create(a.m, a.m, 2, 1, &e);
            sdp_fft_exec_shift(p, c.m[0], c.i("norm", 1), c.st); sdp_fft_free(p); }};
    reg["fft_norm"] = {{{"data", 'C', {4, 6}, 'o', ramp()}}, [](Call& c) { sdp_fft_norm(c.m[0], c.st); }};
    reg["fft_phase"] = {{{"data", 'C', {4, 6}, 'o', ramp()}}, [](Call& c) { sdp_fft_phase(c.m[0], c.st); }};
    reg["convolution"] = {{{"in1", 'C', {6, 6}, 'i', ramp()}, {"in2", 'C', {4, 4}, 'i', ramp()}, {"out", 'C', {6, 6}, 'o', junk}},
        [](Call& c) { sdp_fft_convolution(c.m[0], c.m[1], c.m[2], c.st); }};
    reg["pswf_old"] = {{{"out", 'D', {9}, 'o', junk}}, [](Call& c) { sdp_generate_pswf(c.i("m", 0), 8., c.m[0], c.st); }};
    reg["pswf"] = {{{"out", 'D', {9}, 'o', junk}},
        [](Call& c) { sdp_Pswf* p = sdp_pswf_create(0, 8.);
            sdp_pswf_generate(p, c.i("noout", 0) ? 0 : c.m[0], c.i("size", 0), 0, c.st); sdp_pswf_free(p); }};
    reg["swiftly_create"] = {{}, [](Call& c) {
            sdp_swiftly_free(sdp_swiftly_create(c.i("N", 64), c.i("yN", 32), c.i("xM", 16), 8., c.st)); }};
    auto swift = [](const char* name, Sh a, char ra, Sh b, std::function<void(Call&, sdp_SwiFTly*)> fn)
    {
        F f;
        f.args.push_back({"a", 'Z', a, ra, ramp()});
        if (!b.empty()) f.args.push_back({"b", 'Z', b, 'o', junk});
        f.call = [fn](Call& c) { sdp_Error e = SDP_SUCCESS;
            sdp_SwiFTly* p = sdp_swiftly_create(64, 32, 16, 8., &e); fn(c, p); sdp_swiftly_free(p); };
        reg[name] = f;
    };
    // Image 64, facet 32, sub-grid 16, contribution 16 * 32 / 64 = 8.
    swift("prepare_facet", {3, 24}, 'i', {3, 32}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_prepare_facet(p, c.m[0], c.m[1], 8, c.st); });
    swift("extract_from_facet", {3, 32}, 'i', {3, 8}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_extract_from_facet(p, c.m[0], c.m[1], 8, c.st); });
    swift("add_to_subgrid", {3, 8}, 'i', {3, 16}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_add_to_subgrid(p, c.m[0], c.m[1], 8, c.st); });
    swift("add_to_subgrid_2d", {8, 8}, 'i', {16, 16}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_add_to_subgrid_2d(p, c.m[0], c.m[1], 8, 8, c.st); });
    swift("finish_subgrid", {3, 16}, 'i', {3, 12}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_finish_subgrid(p, c.m[0], c.m[1], 8, c.st); });
    swift("finish_subgrid_inplace", {3, 16}, 'o', {}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_finish_subgrid_inplace(p, c.m[0], 8, c.st); });
    swift("finish_subgrid_inplace_2d", {16, 16}, 'o', {}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_finish_subgrid_inplace_2d(p, c.m[0], 8, 8, c.st); });
    swift("prepare_subgrid_inplace", {3, 16}, 'o', {}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_prepare_subgrid_inplace(p, c.m[0], 8, c.st); });
    swift("prepare_subgrid_inplace_2d", {16, 16}, 'o', {}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_prepare_subgrid_inplace_2d(p, c.m[0], 8, 8, c.st); });
    swift("extract_from_subgrid", {3, 16}, 'i', {3, 8}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_extract_from_subgrid(p, c.m[0], c.m[1], 8, c.st); });
    swift("extract_from_subgrid_2d", {16, 16}, 'i', {8, 8}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_extract_from_subgrid_2d(p, c.m[0], c.m[1], 8, 8, c.st); });
    swift("add_to_facet", {3, 8}, 'i', {3, 32}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_add_to_facet(p, c.m[0], c.m[1], 8, c.st); });
    swift("finish_facet", {3, 32}, 'o', {3, 24}, [](Call& c, sdp_SwiFTly* p) { sdp_swiftly_finish_facet(p, c.m[0], c.m[1], 8, c.st); });

    reg["degrid_custom"] = {{{"grid", 'Z', {2, 4, 12, 12, 1}, 'i', ramp()}, {"uvw", 'D', {2, 3, 3}, 'i', ramp()},
            {"uvkernel", 'D', {8, 4}, 'i', K(1)}, {"wkernel", 'D', {8, 4}, 'i', K(1)}, {"vis", 'Z', {2, 3, 2, 1}, 'o', junk}},
        [](Call& c) { sdp_degrid_uvw_custom(c.m[0], c.m[1], c.m[2], c.m[3], 0.01, 10., C0, C0 / 8, 0, c.m[4], c.st); }};
    const AS uvw = {"uvw", 'R', {5, 3}, 'i', ramp()}, s0 = {"start", 'I', {5}, 'i', K(0)}, e0 = {"end", 'I', {5}, 'i', K(3)};
    const AS vin = {"vis", 'C', {5, 3}, 'i', ramp()}, vout = {"vis", 'C', {5, 3}, 'o', junk};
    reg["clamp_single"] = {{uvw, s0, e0, {"start_out", 'I', {5}, 'o', K(1)}, {"end_out", 'I', {5}, 'o', K(2)}},
        [](Call& c) { sdp_gridder_clamp_channels_single(c.m[0], c.i("dim", 2), C0, C0, c.m[1], c.m[2], -4, 4, c.m[3], c.m[4], -1, -1, c.st); }};
    reg["clamp_uv"] = {{uvw, s0, e0, {"start_out", 'I', {5}, 'o', K(1)}, {"end_out", 'I', {5}, 'o', K(2)}},
        [](Call& c) { sdp_gridder_clamp_channels_uv(c.m[0], C0, C0, c.m[1], c.m[2], -4, 4, -4, 4, c.m[3], c.m[4], -1, -1, c.st); }};

    auto direct = [](Call&, std::function<void(sdp_GridderDirect*)> f) { sdp_Error e = SDP_SUCCESS;
        sdp_GridderDirect* p = sdp_gridder_direct_create(16, 8, 0.1, 1., 0., 0., 4, &e); f(p); sdp_gridder_direct_free(p); };
    reg["direct_degrid"] = {{{"subgrid", 'C', {8, 8}, 'i', ramp()}, uvw, s0, e0, vout},
        [=](Call& c) { direct(c, [&](sdp_GridderDirect* p) { sdp_gridder_direct_degrid(p, c.m[0], 0, 0, 0, C0 / 10, C0 / 10, c.m[1], c.m[2], c.m[3], c.m[4], c.st); }); }};
    reg["direct_grid"] = {{vin, uvw, s0, e0, {"subgrid", 'C', {8, 8}, 'o', junk}},
        [=](Call& c) { direct(c, [&](sdp_GridderDirect* p) { sdp_gridder_direct_grid(p, c.m[0], c.m[1], c.m[2], c.m[3], C0 / 10, C0 / 10, c.m[4], 0, 0, 0, c.st); }); }};
    reg["direct_degrid_correct"] = {{{"facet", 'C', {8, 8}, 'o', ramp()}},
        [=](Call& c) { direct(c, [&](sdp_GridderDirect* p) { sdp_gridder_direct_degrid_correct(p, c.m[0], 0, 0, 1, c.st); }); }};
    reg["direct_grid_correct"] = {{{"facet", 'C', {8, 8}, 'o', ramp()}},
        [=](Call& c) { direct(c, [&](sdp_GridderDirect* p) { sdp_gridder_direct_grid_correct(p, c.m[0], 0, 0, 1, c.st); }); }};
    auto tower = [](Call&, std::function<void(sdp_GridderWtowerUVW*)> f) { sdp_Error e = SDP_SUCCESS;
        sdp_GridderWtowerUVW* p = sdp_gridder_wtower_uvw_create(32, 16, 0.1, 1., 0., 0., 4, 16, 4, 16, &e); f(p); sdp_gridder_wtower_uvw_free(p); };
    reg["wtower_create"] = {{}, [](Call& c) {
            sdp_gridder_wtower_uvw_free(sdp_gridder_wtower_uvw_create(32, c.i("subgrid", 16), 0.1, 1., 0., 0., 4, 16, 4, 16, c.st)); }};
    reg["wtower_degrid"] = {{{"subgrid", 'C', {16, 16}, 'i', ramp()}, uvw, s0, e0, vout},
        [=](Call& c) { tower(c, [&](sdp_GridderWtowerUVW* p) { sdp_gridder_wtower_uvw_degrid(p, c.m[0], 0, 0, 0, C0 / 10, C0 / 10, c.m[1], c.m[2], c.m[3], c.m[4], -1, -1, c.st); }); }};
    reg["wtower_grid"] = {{vin, uvw, s0, e0, {"subgrid", 'C', {16, 16}, 'o', junk}},
        [=](Call& c) { tower(c, [&](sdp_GridderWtowerUVW* p) { sdp_gridder_wtower_uvw_grid(p, c.m[0], c.m[1], c.m[2], c.m[3], C0 / 10, C0 / 10, c.m[4], 0, 0, 0, -1, -1, c.st); }); }};
    reg["wtower_degrid_correct"] = {{{"facet", 'C', {16, 16}, 'o', ramp()}},
        [=](Call& c) { tower(c, [&](sdp_GridderWtowerUVW* p) { sdp_gridder_wtower_uvw_degrid_correct(p, c.m[0], 0, 0, 1, c.st); }); }};
    reg["wtower_grid_correct"] = {{{"facet", 'C', {16, 16}, 'o', ramp()}},
        [=](Call& c) { tower(c, [&](sdp_GridderWtowerUVW* p) { sdp_gridder_wtower_uvw_grid_correct(p, c.m[0], 0, 0, 1, c.st); }); }};
    reg["correct_pswf"] = {{{"facet", 'C', {8, 8}, 'o', ramp()}},
        [](Call& c) { sdp_gridder_grid_correct_pswf(16, 0.1, 1., 0, 0, 4, 4, c.m[0], 0, 0, c.st); }};
    reg["correct_wstack"] = {{{"facet", 'C', {8, 8}, 'o', ramp()}},
        [](Call& c) { sdp_gridder_grid_correct_w_stack(16, 0.1, 1., 0, 0, c.m[0], 0, 0, 1, 0, c.st); }};
    reg["worst_case_image"] = {{{"image", 'C', {16, 16}, 'o', junk}},
        [](Call& c) { sdp_gridder_worst_case_image(0.1, 0.08, c.m[0], c.st); }};
    reg["wstack_degrid"] = {{{"image", 'R', {32, 32}, 'i', ramp()}, uvw, vout},
        [](Call& c) { sdp_grid_wstack_wtower_degrid_all(c.m[0], C0 / 10, C0 / 10, c.m[1], 16, 0.1, 1., 0, 0, 4, 16, 4, 16, 0.5,
                c.s("height", 4), 0, c.m[2], 2, c.st); }};
    reg["wstack_grid"] = {{vin, uvw, {"image", 'R', {32, 32}, 'o', junk}},
        [](Call& c) { sdp_grid_wstack_wtower_grid_all(c.m[0], C0 / 10, C0 / 10, c.m[1], 16, 0.1, 1., 0, 0, 4, 16, 4, 16, 0.5,
                c.s("height", 4), 0, c.m[2], 2, c.st); }};

    const AS im1 = {"in1", 'C', {6, 5}, 'i', ramp()}, im2 = {"in2", 'Z', {6, 5}, 'i', K(2)};
    reg["accumulate"] = {{{"out", 'C', {6, 5}, 'o', junk}, im1, im2}, [](Call& c) { sdp_gridder_accumulate_scaled_arrays(c.m[0], c.m[1], c.m[2], 1, c.st); }};
    reg["accumulate_plain"] = {{{"out", 'C', {6, 5}, 'o', junk}, im1}, [](Call& c) { sdp_gridder_accumulate_scaled_arrays(c.m[0], c.m[1], 0, 1, c.st); }};
    reg["scale_inv"] = {{{"out", 'C', {6, 5}, 'o', junk}, im1, im2}, [](Call& c) { sdp_gridder_scale_inv_array(c.m[0], c.m[1], c.m[2], 1, c.st); }};
    reg["count_nonzero"] = {{{"image", 'C', {6, 5}, 'i', ramp()}}, [](Call& c) { sdp_gridder_count_nonzero_pixels(c.m[0], c.st); }};
    reg["gdft"] = {{uvw, s0, e0, {"flux", 'D', {4}, 'i', K(1)}, {"lmn", 'D', {4, 3}, 'i', K(0.125)}, vout},
        [](Call& c) { sdp_gridder_dft(c.m[0], c.m[1], c.m[2], c.m[3], c.m[4], 0, 0, 0, 0.1, 1., C0, C0, c.m[5], c.st); }};
    reg["gidft"] = {{uvw, vin, s0, e0, {"lmn", 'D', {36, 3}, 'i', K(0.125)}, {"taper", 'D', {6}, 'i', K(1)}, {"image", 'C', {6, 6}, 'o', junk}},
        [](Call& c) { sdp_gridder_idft(c.m[0], c.m[1], c.m[2], c.m[3], c.m[4], c.m[5], 0, 0, 0, 0.1, 1., C0, C0, c.m[6], c.st); }};
    reg["flmn"] = {{{"image", 'C', {5, 5}, 'i', K(2)}, {"taper", 'D', {5}, 'i', K(2)}, {"flux", 'D', {25}, 'o', junk}, {"lmn", 'D', {25, 3}, 'o', junk}},
        [](Call& c) { sdp_gridder_image_to_flmn(c.m[0], 0.1, 0, 0, c.m[1], c.m[2], c.m[3], c.st); }};
    reg["make_kernel"] = {{{"window", 'R', {4}, 'i', ramp()}, {"kernel", 'R', {9, 4}, 'o', junk}}, [](Call& c) { sdp_gridder_make_kernel(c.m[0], c.m[1], c.st); }};
    reg["make_pswf_kernel"] = {{{"kernel", 'R', {9, 4}, 'o', junk}}, [](Call& c) { sdp_gridder_make_pswf_kernel(4, c.m[0], c.st); }};
    reg["w_pattern"] = {{{"pattern", 'Z', {8, 8}, 'o', junk}}, [](Call& c) { sdp_gridder_make_w_pattern(8, 0.1, 0, 0, 1., c.m[0], c.st); }};
    reg["residual"] = {{{"a", 'C', {6, 5}, 'i', ramp()}, {"b", 'C', {6, 5}, 'i', K(1)}, {"out", 'C', {6, 5}, 'o', junk}}, [](Call& c) { sdp_gridder_residual(c.m[0], c.m[1], c.m[2], c.st); }};
    reg["rms_diff"] = {{{"a", 'C', {6, 5}, 'i', ramp()}, {"b", 'C', {6, 5}, 'i', K(1)}}, [](Call& c) { sdp_gridder_rms_diff(c.m[0], c.m[1], c.st); }};
    reg["shift_subgrids"] = {{{"subgrids", 'C', {3, 4, 4}, 'o', ramp()}}, [](Call& c) { sdp_gridder_shift_subgrids(c.m[0], c.st); }};
    reg["subgrid_add"] = {{{"grid", 'C', {8, 8}, 'o', junk}, {"subgrid", 'C', {4, 4}, 'i', ramp()}}, [](Call& c) { sdp_gridder_subgrid_add(c.m[0], 1, 1, c.m[1], 2., c.st); }};
    reg["subgrid_cut_out"] = {{{"grid", 'C', {8, 8}, 'i', ramp()}, {"subgrid", 'C', {4, 4}, 'o', junk}}, [](Call& c) { sdp_gridder_subgrid_cut_out(c.m[0], 1, 1, c.m[1], c.st); }};
    reg["sum_diff"] = {{{"a", 'I', {6}, 'i', ramp()}, {"b", 'I', {6}, 'i', K(1)}}, [](Call& c) { i64 x; sdp_gridder_sum_diff(c.m[0], c.m[1], &x, -1, -1, c.st); }};
    reg["bounds"] = {{uvw, s0, e0}, [](Call& c) { double a[3], b[3]; sdp_gridder_uvw_bounds_all(c.m[0], C0, C0, c.m[1], c.m[2], a, b, c.st); }};
    reg["es_create"] = {{{"uvw", 'R', {5, 3}, 'i', ramp()}, {"freq", 'R', {3}, 'i', K(C0)}, vin, {"weight", 'R', {5, 3}, 'i', K(1)}, {"image", 'R', {16, 16}, 'o', junk}},
        [](Call& c) { sdp_gridder_uvw_es_fft_free_plan(sdp_gridder_uvw_es_fft_create_plan(c.m[0], c.m[1], c.m[2], c.m[3], c.m[4], 0.01, 0.01, 1e-4, 0, 1, 1, c.st)); }};

    const AS th = {"theta", 'R', {4}, 'i', K(0.5)};
    reg["dipole"] = {{th, {"phi", 'R', {4}, 'i', K(0.25)}, {"beam", 'C', {4, 4}, 'o', junk}},
        [](Call& c) { sdp_element_beam_dipole(4, c.m[0], c.m[1], 1e8, 1.5, 4, 0, c.m[2], c.st); }};
    reg["harp"] = {{th, {"phix", 'R', {4}, 'i', K(0.25)}, {"phiy", 'R', {4}, 'i', K(0.75)}, {"coeffs", 'C', {8, 4}, 'i', ramp()}, {"beam", 'C', {4, 4}, 'o', junk}},
        [](Call& c) { sdp_element_beam_spherical_wave_harp(4, c.m[0], c.m[1], c.m[2], 2, c.m[3], 0, c.m[4], c.st); }};
    reg["station"] = {{{"weights", 'C', {5}, 'i', ramp()}, {"ex", 'R', {5}, 'i', ramp()}, {"ey", 'R', {5}, 'i', ramp()}, {"ez", 'R', {5}, 'i', ramp()},
            {"px", 'R', {4}, 'i', K(0.25)}, {"py", 'R', {4}, 'i', K(0.5)}, {"pz", 'R', {4}, 'i', K(0.75)}, {"index", 'I', {5}, 'i', list({0, 1, 1, 0, 1})},
            {"element", 'C', {2, 4, 4}, 'i', ramp()}, {"beam", 'C', {4, 4}, 'o', junk}},
        [](Call& c) { sdp_station_beam_aperture_array(1., c.m[0], c.m[1], c.m[2], c.m[3], 0, 4, c.m[4], c.m[5], c.m[6], c.m[7], c.m[8], 0, c.m[9], 0, 1, 1, c.st); }};
    const AS vis4 = {"vis", 'C', {2, 3, 2, 4}, 'o', junk};
    reg["dft0"] = {{{"directions", 'D', {3, 3}, 'i', K(0.25)}, {"fluxes", 'Z', {3, 2, 4}, 'i', ramp()}, {"uvw", 'D', {2, 3, 2, 3}, 'i', ramp()}, vis4},
        [](Call& c) { sdp_dft_point_v00(c.m[0], c.m[1], c.m[2], c.m[3], c.st); }};
    reg["dft1"] = {{{"directions", 'D', {3, 3}, 'i', K(0.25)}, {"fluxes", 'Z', {3, 2, 4}, 'i', ramp()}, {"uvw", 'D', {2, 3, 3}, 'i', ramp()}, vis4},
        [](Call& c) { sdp_dft_point_v01(c.m[0], c.m[1], c.m[2], C0, C0, c.m[3], c.st); }};
    reg["flagger"] = {{{"vis", 'C', {6, 2, 5, 1}, 'i', ramp()}, {"flags", 'I', {6, 2, 5, 1}, 'o', K(0)}},
        [](Call& c) { sdp_flagger_dynamic_threshold(c.m[0], c.m[1], 0.5, 0.5, 0.5, 0.5, c.i("step", 1), c.i("window", 0), c.i("history", 3), c.st); }};
    const AS uvw3 = {"uvw", 'R', {2, 3, 3}, 'i', list({1, -2, 3})};
    auto coords = [](std::function<void(sdp_SkyCoord*, sdp_SkyCoord*)> f) {
        sdp_SkyCoord* a = sdp_sky_coord_create("icrs", 0.1, 0.2, 0.); sdp_SkyCoord* b = sdp_sky_coord_create("icrs", 0.3, 0.1, 0.);
        f(a, b); sdp_sky_coord_free(a); sdp_sky_coord_free(b); };
    reg["rotate_uvw"] = {{{"in", 'R', {2, 3, 3}, 'i', ramp()}, {"out", 'R', {2, 3, 3}, 'o', junk}},
        [=](Call& c) { coords([&](sdp_SkyCoord* a, sdp_SkyCoord* b) { sdp_phase_rotate_uvw(a, b, c.m[0], c.m[1], c.st); }); }};
    reg["rotate_vis"] = {{uvw3, {"in", 'C', {2, 3, 2, 4}, 'i', ramp()}, {"out", 'C', {2, 3, 2, 4}, 'o', junk}},
        [=](Call& c) { coords([&](sdp_SkyCoord* a, sdp_SkyCoord* b) { sdp_phase_rotate_vis(a, b, C0, C0, c.m[0], c.m[1], c.m[2], c.st); }); }};
    const AS uvwd = {"uvw", 'D', {2, 3, 3}, 'i', list({1, -2, 3})}, frd = {"freq", 'D', {2}, 'i', K(C0)};
    const AS fr = {"freq", 'R', {2}, 'i', K(C0)};
    const AS vis1 = {"vis", 'C', {2, 3, 2, 1}, 'i', ramp()}, wt1 = {"weights", 'R', {2, 3, 2, 1}, 'i', K(2)};
    reg["briggs"] = {{uvwd, frd, {"grid", 'R', {8, 8, 1}, 'o', junk}, wt1, {"out", 'R', {2, 3, 2, 1}, 'o', junk}},
        [](Call& c) { sdp_weighting_briggs(c.m[0], c.m[1], 8., 0., c.m[2], c.m[3], c.m[4], c.st); }};
    reg["uniform"] = {{uvwd, frd, {"grid", 'R', {8, 8, 1}, 'o', junk}, wt1, {"out", 'R', {2, 3, 2, 1}, 'o', junk}},
        [](Call& c) { sdp_weighting_uniform(c.m[0], c.m[1], 8., c.m[2], c.m[3], c.m[4], c.st); }};
    // Grid of 16 x 16 cells of one wavelength; tiles of 8 x 4; 12 visibilities, all kept.
    reg["tile_count"] = {{uvw3, fr, vis1, {"offsets", 'I', {16}, 'o', K(9)}, {"points", 'I', {15}, 'o', K(9)}, {"skipped", 'I', {1}, 'o', K(9)}},
        [](Call& c) { int nv = 0; sdp_count_and_prefix_sum(c.m[0], c.m[1], c.m[2], 16, 8, 4, 1. / 16, 1, &nv, c.m[3], c.m[4], c.m[5], c.st); }};
    const AS suu = {"uu", 'R', {12}, 'o', junk}, svv = {"vv", 'R', {12}, 'o', junk};
    const AS stl = {"tile", 'I', {12}, 'o', junk}, off = {"offsets", 'I', {16}, 'o', K(0)};
    reg["bucket_sort"] = {{uvw3, fr, vis1, wt1, suu, svv, {"sweight", 'R', {12}, 'o', junk}, stl, {"svis", 'C', {12}, 'o', junk}, off},
        [](Call& c) { sdp_bucket_sort(c.m[0], c.m[1], c.m[2], c.m[3], 16, 8, 4, 1. / 16, 1, c.m[4], c.m[5], c.m[6], c.m[7], c.m[8], c.m[9], c.st); }};
    reg["tile_index"] = {{uvw3, fr, stl, suu, svv, {"index", 'I', {12}, 'o', junk}, off},
        [](Call& c) { sdp_tiled_indexing(c.m[0], c.m[1], 16, 8, 4, 1. / 16, 1, 2, 3, 2, c.m[2], c.m[3], c.m[4], c.m[5], c.m[6], c.st); }};
    reg["opt_weighting"] = {{uvw3, fr, vis1, wt1, suu, svv, {"sweight", 'R', {12}, 'o', junk}, stl, off, {"points", 'I', {15}, 'o', K(9)}, {"out", 'R', {2, 3, 2, 1}, 'o', junk}},
        [](Call& c) { sdp_optimized_weighting(c.m[0], c.m[1], c.m[2], c.m[3], 0., 16, 1, c.m[4], c.m[5], c.m[6], c.m[7], c.m[8], c.m[9], c.m[10], c.st); }};
    reg["opt_indexed"] = {{uvw3, vis1, wt1, stl, suu, svv, {"index", 'I', {12}, 'o', K(0)}, off, {"points", 'I', {15}, 'o', K(9)}, {"out", 'R', {2, 3, 2, 1}, 'o', junk}},
        [](Call& c) { int nv = 12; sdp_optimised_indexed_weighting(c.m[0], c.m[1], c.m[2], 0., 16, 1. / 16, 1, &nv, c.m[3], c.m[4], c.m[5], c.m[6], c.m[7], c.m[8], c.m[9], c.st); }};
    reg["vector_add"] = {{{"a", 'R', {6}, 'i', ramp()}, {"b", 'R', {6}, 'i', ramp()}, {"out", 'R', {6}, 'o', junk}},
        [](Call& c) { sdp_vector_add(c.m[0], c.m[1], c.m[2], c.st); }};
    reg["example_a_create"] = {{}, [](Call& c) {
            sdp_function_example_a_free_plan(sdp_function_example_a_create_plan(c.i("a", 3), 2, 0.5f, c.st)); }};
    reg["example_a"] = {{{"out", 'S', {6}, 'o', junk}}, [](Call& c) {
            sdp_Error e = SDP_SUCCESS;
            sdp_FunctionExampleA* p = sdp_function_example_a_create_plan(3, 2, 0.5f, &e);
            sdp_function_example_a_exec(p, c.m[0], c.st); sdp_function_example_a_free_plan(p); }};
}

// ---------------------------------------------------------------- one call
static sdp_MemType type_of(char ty, char prec)
{
    switch (ty)
    {
    case 'R': return prec == 'd' ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
    case 'C': return prec == 'd' ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
    case 'D': return SDP_MEM_DOUBLE;
    case 'Z': return SDP_MEM_COMPLEX_DOUBLE;
    case 'S': return SDP_MEM_FLOAT;
    default: return SDP_MEM_INT;
    }
}
struct Mut { std::string arg, how; };
static bool one(const F& f, char prec, const std::vector<Mut>& muts, sdp_Error* st, bool* changed)
{
    Call c;
    c.prec = prec;
    c.st = st;
    for (const AS& a : f.args)
    {
        sdp_MemType t = type_of(a.ty, prec);
        Sh sh = a.shape;
        int layout = 1;
        bool ro = false, gpu = false;
        for (const Mut& m : muts)
        {
            if (m.arg != a.name) continue;
            if (m.how == "prec") t = (sdp_MemType) (t ^ (SDP_MEM_FLOAT ^ SDP_MEM_DOUBLE));
            else if (m.how == "kind") t = (sdp_MemType) (t ^ SDP_MEM_COMPLEX);
            else if (m.how == "int") t = SDP_MEM_INT;
            else if (m.how == "real") t = SDP_MEM_DOUBLE;
            else if (m.how == "char") t = SDP_MEM_CHAR;
            else if (m.how == "ro") ro = true;
            else if (m.how == "gpu") gpu = true;
            else if (m.how == "gap") layout = 3;
            else if (m.how == "dimup") sh.push_back(1);
            else if (m.how == "dimdown") { i64 n = sh.back(); sh.pop_back(); if (sh.empty()) sh = {}; else sh.back() *= n; }
            else if (m.how.substr(0, 4) == "more") sh[m.how[4] - '0'] += 1;
            else if (m.how.substr(0, 4) == "less") sh[m.how[4] - '0'] -= 1;
            else { fprintf(stderr, "what is %s?\n", m.how.c_str()); _exit(97); }
        }
        if (sh.empty()) sh = {1};
        c.arr.emplace_back(new Arr(t, sh, layout));
        Arr& x = *c.arr.back();
        x.fill(a.val);
        if (gpu)
        {
            sdp_Error e = SDP_SUCCESS;
            sdp_mem_free(x.m);
            x.m = sdp_mem_create_wrapper(x.buf, t, SDP_MEM_GPU, (int) sh.size(), x.shape.data(), x.stride.data(), &e);
            if (e) _exit(96);
        }
        if (ro) sdp_mem_set_read_only(x.m, 1);
        x.snap.assign(x.buf, x.buf + x.bytes);
        c.m.push_back(x.m);
    }
    for (const Mut& m : muts) if (m.arg[0] == '=') c.sc[m.arg.substr(1)] = atof(m.how.c_str());
    f.call(c);
    *changed = false;
    bool in = true;
    for (size_t i = 0; i < f.args.size(); ++i)
    {
        const bool same = memcmp(c.arr[i]->snap.data(), c.arr[i]->buf, c.arr[i]->bytes) == 0;
        if (f.args[i].role == 'o') *changed = *changed || !same;
        else in = in && same;
    }
    return in;
}
static void run(Rng&, Out& out)
{
    build();
    sdp_Error st = SDP_SUCCESS;
    for (const Op& o : scripts[out.idx])
    {
        auto at = [&](const char* k) { auto i = o.a.find(k); return i == o.a.end() ? std::string("-") : i->second; };
        if (at("op") == "clear") { st = SDP_SUCCESS; out.put(J().t("e", "Clear")); continue; }
        std::vector<Mut> muts;
        for (int k : {1, 2})
        {
            const std::string n = std::to_string(k);
            if (at(("a" + n).c_str()) != "-") muts.push_back({at(("a" + n).c_str()), at(("h" + n).c_str())});
        }
        auto it = reg.find(at("op"));
        if (it == reg.end()) { fprintf(stderr, "no function %s\n", at("op").c_str()); _exit(95); }
        bool changed;
        const sdp_Error pre = st;
        // Recorded findings: see known_findings.txt.
        const char* key = 0;
        for (const Mut& m : muts)
        {
            if (pre) break;
            if (at("op") == "vector_add" && m.how == "gap") key = "vector-add-gaps";
            if (at("op") == "example_a" && m.how == "more0") key = "example-a-larger";
        }
        set_key(key ? key : "");
        const bool in = one(it->second, at("prec")[0], muts, &st, &changed);
        set_key("");
        J j;
        if (key) j.t("key", key);
        out.put(j.t("e", "Call").t("f", at("op")).t("prec", at("prec")).t("a1", at("a1")).t("h1", at("h1")).t("a2", at("a2")).t("h2", at("h2"))
                .n("pre", pre).n("err", st).n("changed", changed).n("inputs", in));
    }
}
// For building the table: every single change of every function, each in its own process.
static void probe(const char* file)
{
    build();
    std::map<std::string, std::vector<std::string> > given;
    if (file) { std::ifstream in(file); std::string f, m; while (in >> f >> m) given[f].push_back(m); }
    for (auto& kv : reg) for (char prec : {'d', 's'})
    {
        if (file && !given.count(kv.first)) continue;
        std::vector<std::string> ms = {"-"};
        if (file) ms = given[kv.first];
        else for (const AS& a : kv.second.args)
        {
            std::vector<std::string> l = {"prec", "kind", "int", "real", "char", "ro", "gpu", "gap", "dimup", "dimdown"};
            for (size_t i = 0; i < a.shape.size(); ++i) { l.push_back("more" + std::to_string(i)); l.push_back("less" + std::to_string(i)); }
            for (auto& h : l)
            {
                if (a.ty == 'I' && (h == "prec" || h == "kind" || h == "int")) continue;
                if (a.ty == 'D' && h == "real") continue;
                if (a.ty == 'R' && h == "real" && prec == 'd') continue;
                if (a.ty == 'R' && h == "real" && prec == 's') continue; // The same as prec.
                ms.push_back(std::string(a.name) + ":" + h);
            }
        }
        for (auto& m : ms)
        {
            fflush(stdout);
            if (fork() == 0)
            {
                if (!freopen("/dev/null", "w", stderr)) _exit(1);
                std::vector<Mut> mu;
                if (m != "-") { size_t q = m.find(':'); mu.push_back({m.substr(0, q), m.substr(q + 1)}); }
                sdp_Error st = SDP_SUCCESS; bool ch, in;
                in = one(kv.second, prec, mu, &st, &ch);
                printf("%s %c %s err=%d changed=%d%s\n", kv.first.c_str(), prec, m.c_str(), st, ch, in ? "" : " INPUT CHANGED");
                fflush(stdout);
                _exit(0);
            }
            int ws; wait(&ws);
            if (ws) printf("%s %c %s CRASH\n", kv.first.c_str(), prec, m.c_str());
        }
    }
}
int main(int argc, char** argv)
{
    if (argc > 1 && !strcmp(argv[1], "probe")) { probe(argc > 2 ? argv[2] : 0); return 0; }
    return script_main(argc, argv, run);
}
