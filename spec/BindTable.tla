------------------------------ MODULE BindTable ------------------------------
(* What each function of the Python package hands to the C library.

   A row: the Python name, the C function, what comes back, the parameters of the
   Python function in order, and the arguments of the C function in the order of its
   declaration. A parameter: <<name, kind, default, for None>>; default "" when there is
   none, otherwise the text of the value the C function receives; the last field is
   what it receives when the caller passes None.

   Kinds: mem - an array, handed over as a memory descriptor of exactly that array
   (None: the null descriptor); i32, i64, f64, f32, flag - numbers, unchanged;
   tup - three integers; pint - a C integer passed by reference; sky - a sky
   coordinate; the rest are arrays or numbers of which the function itself uses the
   shape or values. *)
EXTENDS Naturals, Sequences

pA(n) == <<n, "mem", "", "">>          \* an array
pAX(n) == <<n, "memx", "", "">>        \* an array that tells the number of points
pA2(n) == <<n, "mem2", "", "">>        \* an array that tells the number of rows
pAV(n) == <<n, "memv", "", "">>        \* visibilities that must have ch_count channels
pAv(n) == <<n, "newvis", "new", "new">> \* visibilities made by the call when not given
pW2(n) == <<n, "uvw2", "", "">>        \* uvw[point, 3]
pW3(n) == <<n, "uvw3", "", "">>        \* uvw[time, baseline, 3]
pFQ(n) == <<n, "freq", "", "">>        \* frequencies
pI(n) == <<n, "i32", "", "">>
pIo(n, d) == <<n, "i32", d, "">>
pIn(n, d) == <<n, "i32", IF d = "" THEN "none" ELSE d, IF d = "" THEN "none" ELSE d>>
pL(n) == <<n, "i64", "", "">>
pLo(n, d) == <<n, "i64", d, "">>
pS(n) == <<n, "size", "", "">>         \* a 64-bit size
pD(n) == <<n, "f64", "", "">>
pDo(n, d) == <<n, "f64", d, "">>
pDn(n, d) == <<n, "f64", d, d>>
pE(n) == <<n, "f32", "", "">>
pB(n) == <<n, "flag", "", "">>
pBo(n, d) == <<n, "flag", d, "">>
pH(n) == <<n, "i30", "", "">>          \* a number that may be doubled
pT3(n) == <<n, "tup", "", "">>
pCH(n) == <<n, "chan", "", "">>
pPI(n) == <<n, "pint", "", "">>
pSK(n) == <<n, "sky", "", "">>
pOB(n, c) == <<n, "obj", c, "">>

Names(ps) == [k \in 1..Len(ps) |-> ps[k][1]]
rR(kind, py, c, free, ret, ps, args) ==
    [kind |-> kind, py |-> py, c |-> c, free |-> free, ret |-> ret, ps |-> ps, args |-> args]
rF(py, c, ret, ps) == rR("call", py, c, "", ret, ps, Names(ps))
rFx(py, c, ret, ps, args) == rR("call", py, c, "", ret, ps, args)
rM(py, c, ret, ps) == rR("meth", py, c, "", ret, ps, <<"own">> \o Names(ps))
rMx(py, c, ret, ps, args) == rR("meth", py, c, "", ret, ps, args)
rG(py, c) == rR("get", py, c, "", "num", << >>, <<"own">>)
rC(py, c, free, ps) == rR("new", py, c, free, "none", ps, Names(ps))
rCx(py, c, free, ps, args) == rR("new", py, c, free, "none", ps, args)

Table == <<
  rF("clean.hogbom_clean", "sdp_hogbom_clean", "none", <<pA("dirty_img"), pA("psf"),
      pA("cbeam_details"), pD("loop_gain"), pD("threshold"), pI("cycle_limit"), pA("clean_model"),
      pA("residual"), pA("skymodel")>>),
  rF("clean.ms_clean_cornwell", "sdp_ms_clean_cornwell", "none", <<pA("dirty_img"), pA("psf"),
      pA("cbeam_details"), pA("scale_list"), pD("loop_gain"), pD("threshold"), pI("cycle_limit"),
      pA("clean_model"), pA("residual"), pA("skymodel")>>),
  rM("examples.FunctionExampleA.exec", "sdp_function_example_a_exec", "none", <<pA("output")>>),
  rF("examples.vector_add", "sdp_vector_add", "none", <<pA("input_a"), pA("input_b"), pA("output")>>),
  rF("fourier_transforms.padded_fft_size", "sdp_fft_padded_size", "num", <<pI("num"),
      pD("padding_factor")>>),
  rM("fourier_transforms.Fft.exec", "sdp_fft_exec", "none", <<pA("input_data"), pA("output_data")>>),
  rF("grid_data.degrid_uvw_custom", "sdp_degrid_uvw_custom", "none", <<pA("grid"), pA("uvw"),
      pA("uv_kernel"), pA("w_kernel"), pD("theta"), pD("wstep"), pD("channel_start_hz"),
      pD("channel_step_hz"), pI("conjugate"), pA("vis")>>),
  rF("grid_data.wstack_wtower_degrid_all", "sdp_grid_wstack_wtower_degrid_all", "none",
      <<pA("image"), pD("freq0_hz"), pD("dfreq_hz"), pA("uvw"), pI("subgrid_size"), pD("theta"),
      pD("w_step"), pD("shear_u"), pD("shear_v"), pI("support"), pI("oversampling"), pI("w_support"),
      pI("w_oversampling"), pD("subgrid_frac"), pD("w_tower_height"), pI("verbosity"), pA("vis"),
      pIn("num_threads", "0")>>),
  rF("grid_data.wstack_wtower_grid_all", "sdp_grid_wstack_wtower_grid_all", "none", <<pA("vis"),
      pD("freq0_hz"), pD("dfreq_hz"), pA("uvw"), pI("subgrid_size"), pD("theta"), pD("w_step"),
      pD("shear_u"), pD("shear_v"), pI("support"), pI("oversampling"), pI("w_support"),
      pI("w_oversampling"), pD("subgrid_frac"), pD("w_tower_height"), pI("verbosity"), pA("image"),
      pIn("num_threads", "0")>>),
  rMx("grid_data.GridderDirect.degrid_subgrid", "sdp_gridder_direct_degrid", "vis",
      <<pA("subgrid_image"), pT3("subgrid_offset"), pCH("ch_count"), pD("freq0_hz"), pD("dfreq_hz"),
      pA2("uvws"), pA("start_chs"), pA("end_chs"), pAv("vis")>>, <<"own", "subgrid_image",
      "subgrid_offset[0]", "subgrid_offset[1]", "subgrid_offset[2]", "freq0_hz", "dfreq_hz",
      "uvws", "start_chs", "end_chs", "vis">>),
  rM("grid_data.GridderDirect.degrid_correct", "sdp_gridder_direct_degrid_correct", "facet",
      <<pA("facet"), pI("facet_offset_l"), pI("facet_offset_m"), pIo("w_offset", "0")>>),
  rMx("grid_data.GridderDirect.grid_subgrid", "sdp_gridder_direct_grid", "none", <<pAV("vis"),
      pA("uvws"), pA("start_chs"), pA("end_chs"), pCH("ch_count"), pD("freq0_hz"), pD("dfreq_hz"),
      pA("subgrid_image"), pT3("subgrid_offset")>>, <<"own", "vis", "uvws", "start_chs", "end_chs",
      "freq0_hz", "dfreq_hz", "subgrid_image", "subgrid_offset[0]", "subgrid_offset[1]",
      "subgrid_offset[2]">>),
  rM("grid_data.GridderDirect.grid_correct", "sdp_gridder_direct_grid_correct", "facet",
      <<pA("facet"), pI("facet_offset_l"), pI("facet_offset_m"), pIo("w_offset", "0")>>),
  rG("grid_data.GridderDirect.image_size", "sdp_gridder_direct_image_size"),
  rG("grid_data.GridderDirect.shear_u", "sdp_gridder_direct_shear_u"),
  rG("grid_data.GridderDirect.shear_v", "sdp_gridder_direct_shear_v"),
  rG("grid_data.GridderDirect.subgrid_size", "sdp_gridder_direct_subgrid_size"),
  rG("grid_data.GridderDirect.support", "sdp_gridder_direct_support"),
  rG("grid_data.GridderDirect.theta", "sdp_gridder_direct_theta"),
  rG("grid_data.GridderDirect.w_step", "sdp_gridder_direct_w_step"),
  rF("grid_data.clamp_channels_single", "sdp_gridder_clamp_channels_single", "none", <<pA("uvws"),
      pI("dim"), pD("freq0_hz"), pD("dfreq_hz"), pA("start_ch_in"), pA("end_ch_in"), pD("min_u"),
      pD("max_u"), pA("start_ch_out"), pA("end_ch_out"), pLo("start_row", "-1"), pLo("end_row",
      "-1")>>),
  rF("grid_data.clamp_channels_uv", "sdp_gridder_clamp_channels_uv", "none", <<pA("uvws"),
      pD("freq0_hz"), pD("dfreq_hz"), pA("start_ch_in"), pA("end_ch_in"), pD("min_u"), pD("max_u"),
      pD("min_v"), pD("max_v"), pA("start_ch_out"), pA("end_ch_out"), pLo("start_row", "-1"),
      pLo("end_row", "-1")>>),
  rFx("grid_data.determine_max_w_tower_height", "sdp_gridder_determine_max_w_tower_height", "num",
      <<pH("subgrid_size"), pD("theta"), pD("fov"), pD("w_step"), pI("support"), pI("oversampling"),
      pI("w_support"), pI("w_oversampling"), pIn("image_size", ""), pDo("shear_u", "0"), pDo("shear_v",
      "0"), pDo("subgrid_frac", "0.66666666666666663"), pIo("num_samples", "3"), pDn("target_err",
      "0")>>, <<"image_size or 2 * subgrid_size", "subgrid_size", "theta", "w_step", "shear_u",
      "shear_v", "support", "oversampling", "w_support", "w_oversampling", "fov", "subgrid_frac",
      "num_samples", "target_err">>),
  rF("grid_data.determine_w_step", "sdp_gridder_determine_w_step", "num", <<pD("theta"), pD("fov"),
      pDo("shear_u", "0"), pDo("shear_v", "0"), pDn("x_0", "0")>>),
  rFx("grid_data.find_max_w_tower_height", "sdp_gridder_determine_max_w_tower_height", "num",
      <<pOB("grid_kernel", "grid_data.GridderWtowerUVW"), pD("fov"), pDo("subgrid_frac",
      "0.66666666666666663"), pIo("num_samples", "3"), pDn("target_err", "0")>>,
      <<"grid_kernel.image_size", "grid_kernel.subgrid_size", "grid_kernel.theta",
      "grid_kernel.w_step", "grid_kernel.shear_u", "grid_kernel.shear_v", "grid_kernel.support",
      "grid_kernel.oversampling", "grid_kernel.w_support", "grid_kernel.w_oversampling", "fov",
      "subgrid_frac", "num_samples", "target_err">>),
  rF("grid_data.make_kernel", "sdp_gridder_make_kernel", "none", <<pA("window"), pA("kernel")>>),
  rF("grid_data.make_pswf_kernel", "sdp_gridder_make_pswf_kernel", "none", <<pI("support"),
      pA("kernel")>>),
  rF("grid_data.make_w_pattern", "sdp_gridder_make_w_pattern", "none", <<pI("subgrid_size"),
      pD("theta"), pD("shear_u"), pD("shear_v"), pD("w_step"), pA("w_pattern")>>),
  rF("grid_data.rms_diff", "sdp_gridder_rms_diff", "num", <<pA("array_a"), pA("array_b")>>),
  rF("grid_data.subgrid_add", "sdp_gridder_subgrid_add", "none", <<pA("grid"), pI("offset_u"),
      pI("offset_v"), pA("subgrid"), pDo("factor", "1")>>),
  rF("grid_data.subgrid_cut_out", "sdp_gridder_subgrid_cut_out", "none", <<pA("grid"),
      pI("offset_u"), pI("offset_v"), pA("subgrid")>>),
  rFx("grid_data.uvw_bounds_all", "sdp_gridder_uvw_bounds_all", "bounds", <<pA("uvws"),
      pD("freq0_hz"), pD("dfreq_hz"), pA("start_ch"), pA("end_ch")>>, <<"uvws", "freq0_hz",
      "dfreq_hz", "start_ch", "end_ch", "min_uvw", "max_uvw">>),
  rM("grid_data.GridderUvwEsFft.grid_uvw_es_fft", "sdp_grid_uvw_es_fft", "none", <<pA("uvw"),
      pA("freq_hz"), pA("vis"), pA("weight"), pA("dirty_image")>>),
  rM("grid_data.GridderUvwEsFft.ifft_grid_uvw_es", "sdp_ifft_degrid_uvw_es", "none", <<pA("uvw"),
      pA("freq_hz"), pA("vis"), pA("weight"), pA("dirty_image")>>),
  rM("grid_data.GridderWtowerUVW.degrid", "sdp_gridder_wtower_uvw_degrid", "none",
      <<pA("subgrid_image"), pI("subgrid_offset_u"), pI("subgrid_offset_v"), pI("subgrid_offset_w"),
      pD("freq0_hz"), pD("dfreq_hz"), pA("uvws"), pA("start_chs"), pA("end_chs"), pA("vis"),
      pLo("start_row", "-1"), pLo("end_row", "-1")>>),
  rMx("grid_data.GridderWtowerUVW.degrid_subgrid", "sdp_gridder_wtower_uvw_degrid", "vis",
      <<pA("subgrid_image"), pT3("subgrid_offset"), pCH("ch_count"), pD("freq0_hz"), pD("dfreq_hz"),
      pA2("uvws"), pA("start_chs"), pA("end_chs"), pAv("vis"), pLo("start_row", "-1"), pLo("end_row",
      "-1")>>, <<"own", "subgrid_image", "subgrid_offset[0]", "subgrid_offset[1]",
      "subgrid_offset[2]", "freq0_hz", "dfreq_hz", "uvws", "start_chs", "end_chs", "vis",
      "start_row", "end_row">>),
  rM("grid_data.GridderWtowerUVW.degrid_correct", "sdp_gridder_wtower_uvw_degrid_correct", "facet",
      <<pA("facet"), pI("facet_offset_l"), pI("facet_offset_m"), pIo("w_offset", "0")>>),
  rM("grid_data.GridderWtowerUVW.grid", "sdp_gridder_wtower_uvw_grid", "none", <<pA("vis"),
      pA("uvw"), pA("start_chs"), pA("end_chs"), pD("freq0_hz"), pD("dfreq_hz"), pA("subgrid_image"),
      pI("subgrid_offset_u"), pI("subgrid_offset_v"), pI("subgrid_offset_w"), pLo("start_row", "-1"),
      pLo("end_row", "-1")>>),
  rMx("grid_data.GridderWtowerUVW.grid_subgrid", "sdp_gridder_wtower_uvw_grid", "none",
      <<pAV("vis"), pA("uvw"), pA("start_chs"), pA("end_chs"), pCH("ch_count"), pD("freq0_hz"),
      pD("dfreq_hz"), pA("subgrid_image"), pT3("subgrid_offset"), pLo("start_row", "-1"),
      pLo("end_row", "-1")>>, <<"own", "vis", "uvw", "start_chs", "end_chs", "freq0_hz",
      "dfreq_hz", "subgrid_image", "subgrid_offset[0]", "subgrid_offset[1]", "subgrid_offset[2]",
      "start_row", "end_row">>),
  rM("grid_data.GridderWtowerUVW.grid_correct", "sdp_gridder_wtower_uvw_grid_correct", "facet",
      <<pA("facet"), pI("facet_offset_l"), pI("facet_offset_m"), pIo("w_offset", "0")>>),
  rG("grid_data.GridderWtowerUVW.image_size", "sdp_gridder_wtower_uvw_image_size"),
  rG("grid_data.GridderWtowerUVW.oversampling", "sdp_gridder_wtower_uvw_oversampling"),
  rG("grid_data.GridderWtowerUVW.shear_u", "sdp_gridder_wtower_uvw_shear_u"),
  rG("grid_data.GridderWtowerUVW.shear_v", "sdp_gridder_wtower_uvw_shear_v"),
  rG("grid_data.GridderWtowerUVW.subgrid_size", "sdp_gridder_wtower_uvw_subgrid_size"),
  rG("grid_data.GridderWtowerUVW.support", "sdp_gridder_wtower_uvw_support"),
  rG("grid_data.GridderWtowerUVW.theta", "sdp_gridder_wtower_uvw_theta"),
  rG("grid_data.GridderWtowerUVW.w_oversampling", "sdp_gridder_wtower_uvw_w_oversampling"),
  rG("grid_data.GridderWtowerUVW.w_step", "sdp_gridder_wtower_uvw_w_step"),
  rG("grid_data.GridderWtowerUVW.w_support", "sdp_gridder_wtower_uvw_w_support"),
  rF("numeric_functions.fft_convolution", "sdp_fft_convolution", "none", <<pA("in1"), pA("in2"),
      pA("out")>>),
  rFx("station_beam.dipole", "sdp_element_beam_dipole", "none", <<pAX("theta_rad"), pA("phi_rad"),
      pD("freq_hz"), pD("dipole_length_m"), pI("stride_element_beam"),
      pI("index_offset_element_beam"), pA("element_beam")>>, <<"theta_rad.size", "theta_rad",
      "phi_rad", "freq_hz", "dipole_length_m", "stride_element_beam", "index_offset_element_beam",
      "element_beam">>),
  rFx("station_beam.spherical_wave_harp", "sdp_element_beam_spherical_wave_harp", "none",
      <<pAX("theta_rad"), pA("phi_x_rad"), pA("phi_y_rad"), pI("l_max"), pA("coeffs"),
      pI("index_offset_element_beam"), pA("element_beam")>>, <<"theta_rad.size", "theta_rad",
      "phi_x_rad", "phi_y_rad", "l_max", "coeffs", "index_offset_element_beam", "element_beam">>),
  rFx("station_beam.aperture_array", "sdp_station_beam_aperture_array", "none", <<pD("wavenumber"),
      pA("element_weights"), pA("element_x"), pA("element_y"), pA("element_z"), pAX("point_x"),
      pA("point_y"), pA("point_z"), pA("element_beam_index"), pA("element_beam"), pA("station_beam"),
      pBo("normalise", "1"), pBo("eval_x", "1"), pBo("eval_y", "1")>>, <<"wavenumber",
      "element_weights", "element_x", "element_y", "element_z", "zero", "point_x.size", "point_x",
      "point_y", "point_z", "element_beam_index", "element_beam", "zero", "station_beam",
      "normalise", "eval_x", "eval_y">>),
  rF("visibility.dft_point_v00", "sdp_dft_point_v00", "none", <<pA("source_directions"),
      pA("source_fluxes"), pA("uvw_lambda"), pA("vis")>>),
  rF("visibility.dft_point_v01", "sdp_dft_point_v01", "none", <<pA("source_directions"),
      pA("source_fluxes"), pA("uvw"), pD("channel_start_hz"), pD("channel_step_hz"), pA("vis")>>),
  rF("visibility.flagger_dynamic_threshold", "sdp_flagger_dynamic_threshold", "none", <<pA("vis"),
      pA("flags"), pD("alpha"), pD("threshold_magnitudes"), pD("threshold_variations"),
      pD("threshold_broadband"), pI("sampling_step"), pI("window"), pI("window_median_history")>>),
  rF("visibility.opt_weighting.optimized_weighting", "sdp_optimized_weighting", "none", <<pA("uvw"),
      pA("freqs"), pA("vis"), pA("weights"), pD("robust_param"), pI("grid_size"), pL("support"),
      pA("sorted_uu"), pA("sorted_vv"), pA("sorted_weight"), pA("sorted_tile"), pA("tile_offsets"),
      pA("num_points_in_tiles"), pA("output_weights")>>),
  rF("visibility.opt_weighting.optimised_indexed_weighting", "sdp_optimised_indexed_weighting",
      "none", <<pA("uvw"), pA("vis"), pA("weights"), pD("robust_param"), pI("grid_size"),
      pD("cell_size_rad"), pL("support"), pPI("num_visibilities"), pA("sorted_tile"), pA("sorted_uu"),
      pA("sorted_vv"), pA("sorted_vis_index"), pA("tile_offsets"), pA("num_points_in_tiles"),
      pA("output_weights")>>),
  rF("visibility.phase_rotate_uvw", "sdp_phase_rotate_uvw", "none", <<pSK("phase_centre_orig"),
      pSK("phase_centre_new"), pA("uvw_in"), pA("uvw_out")>>),
  rF("visibility.phase_rotate_vis", "sdp_phase_rotate_vis", "none", <<pSK("phase_centre_orig"),
      pSK("phase_centre_new"), pD("channel_start_hz"), pD("channel_step_hz"), pA("uvw"), pA("vis_in"),
      pA("vis_out")>>),
  rF("visibility.tiled_functions.count_and_prefix_sum", "sdp_count_and_prefix_sum", "none",
      <<pA("uvw"), pA("freqs"), pA("vis"), pI("grid_size"), pL("tile_size_u"), pL("tile_size_v"),
      pD("cell_size_rad"), pL("support"), pPI("num_visibilities"), pA("tile_offsets"),
      pA("num_points_in_tiles"), pA("num_skipped")>>),
  rF("visibility.tiled_functions.bucket_sort", "sdp_bucket_sort", "none", <<pA("uvw"), pA("freqs"),
      pA("vis"), pA("weights"), pI("grid_size"), pL("tile_size_u"), pL("tile_size_v"),
      pD("cell_size_rad"), pL("support"), pA("sorted_uu"), pA("sorted_vv"), pA("sorted_weight"),
      pA("sorted_tile"), pA("sorted_vis"), pA("tile_offsets")>>),
  rF("visibility.tiled_functions.tiled_indexing", "sdp_tiled_indexing", "none", <<pA("uvw"),
      pA("freqs"), pI("grid_size"), pL("tile_size_u"), pL("tile_size_v"), pD("cell_size_rad"),
      pL("support"), pL("num_channels"), pL("num_baselines"), pL("num_times"), pA("sorted_tile"),
      pA("sorted_uu"), pA("sorted_vv"), pA("sorted_vis_index"), pA("tile_offsets")>>),
  rF("visibility.weighting.briggs_weights", "sdp_weighting_briggs", "none", <<pA("uvw"),
      pA("freq_hz"), pD("max_abs_uv"), pD("robust_param"), pA("grid_uv"), pA("input_weights"),
      pA("output_weights")>>),
  rF("visibility.weighting.uniform_weights", "sdp_weighting_uniform", "none", <<pA("uvw"),
      pA("freq_hz"), pD("max_abs_uv"), pA("grid_uv"), pA("input_weights"), pA("output_weights")>>),
  rM("fourier_transforms.swiftly.Swiftly.prepare_facet", "sdp_swiftly_prepare_facet", "none",
      <<pA("facet"), pA("prep_facet_out"), pL("facet_offset")>>),
  rM("fourier_transforms.swiftly.Swiftly.extract_from_facet", "sdp_swiftly_extract_from_facet",
      "none", <<pA("prep_facet"), pA("contribution_out"), pL("subgrid_offset")>>),
  rM("fourier_transforms.swiftly.Swiftly.add_to_subgrid", "sdp_swiftly_add_to_subgrid", "none",
      <<pA("contribution"), pA("subgrid_image_inout"), pL("facet_offset")>>),
  rM("fourier_transforms.swiftly.Swiftly.add_to_subgrid_2d", "sdp_swiftly_add_to_subgrid_2d",
      "none", <<pA("contribution"), pA("subgrid_image_inout"), pL("facet_offset0"),
      pL("facet_offset1")>>),
  rM("fourier_transforms.swiftly.Swiftly.finish_subgrid_inplace",
      "sdp_swiftly_finish_subgrid_inplace", "none", <<pA("subgrid_inout"), pL("subgrid_offset")>>),
  rM("fourier_transforms.swiftly.Swiftly.finish_subgrid", "sdp_swiftly_finish_subgrid", "none",
      <<pA("subgrid_image"), pA("subgrid_out"), pL("subgrid_offset")>>),
  rM("fourier_transforms.swiftly.Swiftly.finish_subgrid_inplace_2d",
      "sdp_swiftly_finish_subgrid_inplace_2d", "none", <<pA("subgrid_inout"), pL("subgrid_offset0"),
      pL("subgrid_offset1")>>),
  rM("fourier_transforms.swiftly.Swiftly.prepare_subgrid_inplace",
      "sdp_swiftly_prepare_subgrid_inplace", "none", <<pA("subgrid_inout"), pL("subgrid_offset")>>),
  rM("fourier_transforms.swiftly.Swiftly.prepare_subgrid_inplace_2d",
      "sdp_swiftly_prepare_subgrid_inplace_2d", "none", <<pA("subgrid_inout"),
      pL("subgrid_offset0"), pL("subgrid_offset1")>>),
  rM("fourier_transforms.swiftly.Swiftly.extract_from_subgrid", "sdp_swiftly_extract_from_subgrid",
      "none", <<pA("subgrid_image"), pA("contribution_out"), pL("facet_offset")>>),
  rM("fourier_transforms.swiftly.Swiftly.extract_from_subgrid_2d",
      "sdp_swiftly_extract_from_subgrid_2d", "none", <<pA("subgrid_image"), pA("contribution_out"),
      pL("facet_offset0"), pL("facet_offset1")>>),
  rM("fourier_transforms.swiftly.Swiftly.add_to_facet", "sdp_swiftly_add_to_facet", "none",
      <<pA("contribution"), pA("facet_data_inout"), pL("subgrid_offset")>>),
  rM("fourier_transforms.swiftly.Swiftly.finish_facet", "sdp_swiftly_finish_facet", "none",
      <<pA("facet_data"), pA("facet_out"), pL("facet_offset")>>),
  rG("fourier_transforms.swiftly.Swiftly.image_size", ""),
  rG("fourier_transforms.swiftly.Swiftly.facet_size", ""),
  rG("fourier_transforms.swiftly.Swiftly.subgrid_size", ""),
  rG("fourier_transforms.swiftly.Swiftly.contribution_size", ""),
  rG("fourier_transforms.swiftly.Swiftly.pswf_parameter", ""),
  rC("grid_data.GridderDirect", "sdp_gridder_direct_create", "sdp_gridder_direct_free",
      <<pI("image_size"), pI("subgrid_size"), pD("theta"), pD("w_step"), pD("shear_u"), pD("shear_v"),
      pI("support")>>),
  rC("grid_data.GridderWtowerUVW", "sdp_gridder_wtower_uvw_create", "sdp_gridder_wtower_uvw_free",
      <<pI("image_size"), pI("subgrid_size"), pD("theta"), pD("w_step"), pD("shear_u"), pD("shear_v"),
      pI("support"), pI("oversampling"), pI("w_support"), pI("w_oversampling")>>),
  rCx("grid_data.GridderUvwEsFft", "sdp_gridder_uvw_es_fft_create_plan",
      "sdp_gridder_uvw_es_fft_free_plan", <<pW2("uvw"), pFQ("freq_hz"), pA("vis"), pA("weight"),
      pA("dirty_image"), pD("pixel_size_x_rad"), pD("pixel_size_y_rad"), pD("epsilon"),
      pB("do_w_stacking")>>, <<"uvw", "freq_hz", "vis", "weight", "dirty_image",
      "pixel_size_x_rad", "pixel_size_y_rad", "epsilon", "min_abs_w", "max_abs_w",
      "do_w_stacking">>),
  rC("fourier_transforms.Fft", "sdp_fft_create", "sdp_fft_free", <<pA("input_data"),
      pA("output_data"), pI("num_dims_fft"), pB("is_forward")>>),
  rC("fourier_transforms.swiftly.Swiftly", "sdp_swiftly_create", "sdp_swiftly_free",
      <<pS("image_size"), pS("yN_size"), pS("xM_size"), pD("W")>>),
  rC("examples.FunctionExampleA", "sdp_function_example_a_create_plan",
      "sdp_function_example_a_free_plan", <<pI("par_a"), pI("par_b"), pE("par_c")>>),
  rF("visibility.get_uv_range", "", "uvrange", <<pW3("uvw"), pFQ("freq_hz")>>)
>>
=============================================================================
