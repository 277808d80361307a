-------------------------------- MODULE Dump --------------------------------
(***************************************************************************)
(* The text rendering of what was decoded.  A rendering is a sequence of   *)
(* lines [n, t]: text t at nesting level n.  Indented, every line starts   *)
(* with two spaces per level; on one line, the texts are separated by one  *)
(* space.  Elements appear in the order of the syntax tables, those that   *)
(* are present and only those, with the value that was decoded.            *)
(***************************************************************************)
EXTENDS Rtp

(***************************************************************************)
(* Numbers.                                                                *)
(***************************************************************************)
\* %u of the uint32 represented by v
UStr(v) ==
  IF v >= 0 THEN ToString(v)
  ELSE LET w == (v + 2147483647) + 1                     \* 2^31 + w is meant
           d == 8 + (w % 10)
       IN  ToString(214748364 + (w \div 10) + (d \div 10)) \o ToString(d % 10)
HexD == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexN(_, _)
HexN(v, n) == IF n = 0 THEN "" ELSE HexN(v \div 16, n - 1) \o HexD[(v % 16) + 1]
Hex8(v) == "0x" \o HexN(v, 8)                            \* 0x%08x
HexBytes(b) == FoldLeft(LAMBDA a, v : a \o HexN(v, 2), "", b)

(***************************************************************************)
(* Lines.  e = [f, p, n]: elements of f behind prefix p, at level n.       *)
(***************************************************************************)
L(n, t) == <<[n |-> n, t |-> t]>>
At(f, p, n) == [f |-> f, p |-> p, n |-> n]
In(e, name) == [e EXCEPT !.p = @ \o name \o ".", !.n = @ + 1]
D(e, k) == G(e.f, e.p \o k)
Vec(e, k) == IF (e.p \o k) \in DOMAIN e.f THEN e.f[e.p \o k] ELSE <<>>
If(c, x) == IF c THEN x ELSE <<>>
Us(e, names) == [i \in 1..Len(names) |-> [n |-> e.n, t |-> names[i] \o ": " \o UStr(D(e, names[i]))]]
Is(e, names) == [i \in 1..Len(names) |-> [n |-> e.n, t |-> names[i] \o ": " \o ToString(D(e, names[i]))]]
U(e, k) == Us(e, <<k>>)
I(e, k) == Is(e, <<k>>)
List(q, s(_)) == FoldLeft(LAMBDA a, v : a \o " " \o s(v), "", q) \o " }"
UV(e, k) == L(e.n, k \o " {" \o List(Vec(e, k), UStr))
IV(e, k) == L(e.n, k \o " {" \o List(Vec(e, k), ToString))
\* pairs, from the flat sequence
IPairs(e, k) ==
  LET q == Vec(e, k)
  IN  L(e.n, k \o " {"
             \o List(OneTo(Len(q) \div 2),
                     LAMBDA i : "{" \o List(<<q[2*i-1], q[2*i]>>, ToString)))
Block(n, name, inner) == L(n, name \o " {") \o inner \o L(n, "}")

(***************************************************************************)
(* Sequence parameter sets                                                 *)
(***************************************************************************)
HrdLines(e) ==
  Us(e, <<"cpb_cnt_minus1", "bit_rate_scale", "cpb_size_scale">>)
  \o UV(e, "bit_rate_value_minus1") \o UV(e, "cpb_size_value_minus1") \o UV(e, "cbr_flag")
  \o Us(e, <<"initial_cpb_removal_delay_length_minus1", "cpb_removal_delay_length_minus1",
             "dpb_output_delay_length_minus1", "time_offset_length">>)

VuiLines(e) ==
  U(e, "aspect_ratio_info_present_flag")
  \o If(D(e, "aspect_ratio_info_present_flag") = 1,
        U(e, "aspect_ratio_idc")
        \o If(D(e, "aspect_ratio_idc") = 255, Us(e, <<"sar_width", "sar_height">>)))
  \o U(e, "overscan_info_present_flag")
  \o If(D(e, "overscan_info_present_flag") = 1, U(e, "overscan_appropriate_flag"))
  \o U(e, "video_signal_type_present_flag")
  \o If(D(e, "video_signal_type_present_flag") = 1,
        Us(e, <<"video_format", "video_full_range_flag", "colour_description_present_flag">>)
        \o If(D(e, "colour_description_present_flag") = 1,
              Us(e, <<"colour_primaries", "transfer_characteristics", "matrix_coefficients">>)))
  \o U(e, "chroma_loc_info_present_flag")
  \o If(D(e, "chroma_loc_info_present_flag") = 1,
        Us(e, <<"chroma_sample_loc_type_top_field", "chroma_sample_loc_type_bottom_field">>))
  \o U(e, "timing_info_present_flag")
  \o If(D(e, "timing_info_present_flag") = 1,
        Us(e, <<"num_units_in_tick", "time_scale", "fixed_frame_rate_flag">>))
  \o U(e, "nal_hrd_parameters_present_flag")
  \o If(D(e, "nal_hrd_parameters_present_flag") = 1,
        Block(e.n, "hrd_parameters", HrdLines(In(e, "nal_hrd_parameters"))))
  \o U(e, "vcl_hrd_parameters_present_flag")
  \o If(D(e, "vcl_hrd_parameters_present_flag") = 1,
        Block(e.n, "hrd_parameters", HrdLines(In(e, "vcl_hrd_parameters"))))
  \o If(D(e, "nal_hrd_parameters_present_flag") = 1 \/ D(e, "vcl_hrd_parameters_present_flag") = 1,
        U(e, "low_delay_hrd_flag"))
  \o Us(e, <<"pic_struct_present_flag", "bitstream_restriction_flag">>)
  \o If(D(e, "bitstream_restriction_flag") = 1,
        Us(e, <<"motion_vectors_over_pic_boundaries_flag", "max_bytes_per_pic_denom",
                "max_bits_per_mb_denom", "log2_max_mv_length_horizontal",
                "log2_max_mv_length_vertical", "max_num_reorder_frames",
                "max_dec_frame_buffering">>))

\* r: the elements without their prefix
SpsDataLines(e, r, resolution) ==
  Us(e, <<"profile_idc", "constraint_set0_flag", "constraint_set1_flag", "constraint_set2_flag",
          "constraint_set3_flag", "constraint_set4_flag", "constraint_set5_flag",
          "reserved_zero_2bits">>)
  \o L(e.n, "profile: " \o ProfileType(r))
  \o Us(e, <<"level_idc", "seq_parameter_set_id">>)
  \o If(D(e, "profile_idc") \in HighProfiles,
        U(e, "chroma_format_idc")
        \o If(D(e, "chroma_format_idc") = 3, U(e, "separate_colour_plane_flag"))
        \o Us(e, <<"bit_depth_luma_minus8", "bit_depth_chroma_minus8",
                   "qpprime_y_zero_transform_bypass_flag", "seq_scaling_matrix_present_flag">>)
        \o UV(e, "seq_scaling_list_present_flag")
        \o UV(e, "ScalingList4x4") \o UV(e, "UseDefaultScalingMatrix4x4Flag")
        \o UV(e, "ScalingList8x8") \o UV(e, "UseDefaultScalingMatrix8x8Flag")
        \o I(e, "delta_scale"))
  \o Us(e, <<"log2_max_frame_num_minus4", "pic_order_cnt_type">>)
  \o If(D(e, "pic_order_cnt_type") = 0, U(e, "log2_max_pic_order_cnt_lsb_minus4"))
  \o If(D(e, "pic_order_cnt_type") = 1,
        U(e, "delta_pic_order_always_zero_flag")
        \o Is(e, <<"offset_for_non_ref_pic", "offset_for_top_to_bottom_field">>)
        \o U(e, "num_ref_frames_in_pic_order_cnt_cycle") \o IV(e, "offset_for_ref_frame"))
  \o Us(e, <<"max_num_ref_frames", "gaps_in_frame_num_value_allowed_flag",
             "pic_width_in_mbs_minus1", "pic_height_in_map_units_minus1", "frame_mbs_only_flag">>)
  \o If(D(e, "frame_mbs_only_flag") = 0, U(e, "mb_adaptive_frame_field_flag"))
  \o Us(e, <<"direct_8x8_inference_flag", "frame_cropping_flag">>)
  \o If(D(e, "frame_cropping_flag") = 1,
        Us(e, <<"frame_crop_left_offset", "frame_crop_right_offset", "frame_crop_top_offset",
                "frame_crop_bottom_offset">>))
  \o U(e, "vui_parameters_present_flag")
  \o If(D(e, "vui_parameters_present_flag") = 1,
        Block(e.n, "vui_parameters", VuiLines(In(e, "vui_parameters"))))
  \o If(resolution, L(e.n, "width: " \o ToString(OutWidth(r)))
                    \o L(e.n, "height: " \o ToString(OutHeight(r))))

SvcExtLines(e) ==
  LET cat == D(e, "ChromaArrayType")
  IN  Us(e, <<"inter_layer_deblocking_filter_control_present_flag",
              "extended_spatial_scalability_idc">>)
      \o If(cat \in {1, 2}, U(e, "chroma_phase_x_plus1_flag"))
      \o If(cat = 1, U(e, "chroma_phase_y_plus1"))
      \o If(D(e, "extended_spatial_scalability_idc") = 1,
            If(cat > 0, Us(e, <<"seq_ref_layer_chroma_phase_x_plus1_flag",
                                "seq_ref_layer_chroma_phase_y_plus1">>))
            \o Is(e, <<"seq_scaled_ref_layer_left_offset", "seq_scaled_ref_layer_top_offset",
                       "seq_scaled_ref_layer_right_offset", "seq_scaled_ref_layer_bottom_offset">>))
      \o U(e, "seq_tcoeff_level_prediction_flag")
      \o If(D(e, "seq_tcoeff_level_prediction_flag") = 1,
            U(e, "adaptive_tcoeff_level_prediction_flag"))
      \o U(e, "slice_header_restriction_flag")

SubPrefix == "seq_parameter_set_data."
Unprefixed(f, p) ==
  LET n == Len(p)
      ks == {k \in DOMAIN f : Len(k) > n /\ SubSeq(k, 1, n) = p}
  IN  [u \in {SubSeq(k, n + 1, Len(k)) : k \in ks} |-> f[p \o u]]
SubsetLines(e, resolution) ==
  LET r == Unprefixed(e.f, SubPrefix)
      p == G(r, "profile_idc")
  IN  Block(e.n, "sps_data", SpsDataLines(At(r, "", e.n + 1), r, resolution))
      \o (CASE p \in {83, 86} ->
                 Block(e.n, "seq_parameter_set_svc_extension",
                       SvcExtLines(In(e, "seq_parameter_set_svc_extension")))
                 \o U(e, "svc_vui_parameters_present_flag")
            [] p \in {118, 128, 134} -> Us(e, <<"bit_equal_to_one", "mvc_vui_parameters_present_flag">>)
            [] p \in {138, 135, 139} -> U(e, "bit_equal_to_one")
            [] OTHER -> <<>>)
      \o U(e, "additional_extension2_flag")
      \o If(D(e, "additional_extension2_flag") = 1, U(e, "additional_extension2_data_flag"))

(***************************************************************************)
(* Picture parameter sets                                                  *)
(***************************************************************************)
PpsLines(e) ==
  LET t == D(e, "slice_group_map_type")
  IN  Us(e, <<"pic_parameter_set_id", "seq_parameter_set_id", "entropy_coding_mode_flag",
              "bottom_field_pic_order_in_frame_present_flag", "num_slice_groups_minus1">>)
      \o If(D(e, "num_slice_groups_minus1") > 0,
            U(e, "slice_group_map_type")
            \o If(t = 0, UV(e, "run_length_minus1"))
            \o If(t = 2, UV(e, "top_left") \o UV(e, "bottom_right"))
            \o If(t \in 3..5, Us(e, <<"slice_group_change_direction_flag",
                                      "slice_group_change_rate_minus1">>))
            \o If(t = 6, U(e, "pic_size_in_map_units_minus1") \o UV(e, "slice_group_id")))
      \o Us(e, <<"num_ref_idx_l0_default_active_minus1", "num_ref_idx_l1_default_active_minus1",
                 "weighted_pred_flag", "weighted_bipred_idc">>)
      \o Is(e, <<"pic_init_qp_minus26", "pic_init_qs_minus26", "chroma_qp_index_offset">>)
      \o Us(e, <<"deblocking_filter_control_present_flag", "constrained_intra_pred_flag",
                 "redundant_pic_cnt_present_flag", "transform_8x8_mode_flag",
                 "pic_scaling_matrix_present_flag">>)
      \o UV(e, "pic_scaling_list_present_flag")
      \o UV(e, "ScalingList4x4") \o UV(e, "UseDefaultScalingMatrix4x4Flag")
      \o UV(e, "ScalingList8x8") \o UV(e, "UseDefaultScalingMatrix8x8Flag")
      \o Is(e, <<"delta_scale", "second_chroma_qp_index_offset">>)

(***************************************************************************)
(* Slice headers                                                           *)
(***************************************************************************)
RplmLines(e) ==
  Us(e, <<"ref_pic_list_modification_flag_l0", "ref_pic_list_modification_flag_l1">>)
  \o If(Vec(e, "modification_of_pic_nums_idc") # <<>>, UV(e, "modification_of_pic_nums_idc"))
  \o If(Vec(e, "abs_diff_pic_num_minus1") # <<>>, UV(e, "abs_diff_pic_num_minus1"))
  \o If(Vec(e, "long_term_pic_num") # <<>>, UV(e, "long_term_pic_num"))

PwtLines(e) ==
  LET color == D(e, "chroma_array_type") # 0
      half(l) == UV(e, "luma_weight_" \o l \o "_flag")
                 \o IV(e, "luma_weight_" \o l) \o IV(e, "luma_offset_" \o l)
                 \o If(color, UV(e, "chroma_weight_" \o l \o "_flag")
                              \o IPairs(e, "chroma_weight_" \o l)
                              \o IPairs(e, "chroma_offset_" \o l))
  IN  U(e, "luma_log2_weight_denom") \o If(color, U(e, "chroma_log2_weight_denom"))
      \o half("l0") \o If(IsB(D(e, "slice_type")), half("l1"))

DrpmLines(e) ==
  IF D(e, "IdrPicFlag") = 1
  THEN Us(e, <<"no_output_of_prior_pics_flag", "long_term_reference_flag">>)
  ELSE U(e, "adaptive_ref_pic_marking_mode_flag")
       \o If(D(e, "adaptive_ref_pic_marking_mode_flag") = 1,
             UV(e, "memory_management_control_operation")
             \o UV(e, "difference_of_pic_nums_minus1") \o UV(e, "long_term_pic_num")
             \o UV(e, "long_term_frame_idx") \o UV(e, "max_long_term_frame_idx_plus1"))

FrontLines(e, idr) ==
  LET poc == D(e, "pic_order_cnt_type")
  IN  Us(e, <<"first_mb_in_slice", "slice_type", "pic_parameter_set_id">>)
      \o If(D(e, "separate_colour_plane_flag") = 1, U(e, "colour_plane_id"))
      \o U(e, "frame_num")
      \o If(D(e, "frame_mbs_only_flag") = 0,
            U(e, "field_pic_flag")
            \o If(D(e, "field_pic_flag") = 1, U(e, "bottom_field_flag")))
      \o If(idr = 1, U(e, "idr_pic_id"))
      \o If(poc = 0,
            U(e, "pic_order_cnt_lsb")
            \o If(D(e, "bottom_field_pic_order_in_frame_present_flag") = 1
                  /\ D(e, "field_pic_flag") = 0, I(e, "delta_pic_order_cnt_bottom")))
      \o If(poc = 1 /\ D(e, "delta_pic_order_always_zero_flag") = 0, IV(e, "delta_pic_order_cnt"))
      \o If(D(e, "redundant_pic_cnt_present_flag") = 1, U(e, "redundant_pic_cnt"))

ActiveLines(e, b) ==
  U(e, "num_ref_idx_active_override_flag")
  \o If(D(e, "num_ref_idx_active_override_flag") = 1,
        U(e, "num_ref_idx_l0_active_minus1") \o If(b, U(e, "num_ref_idx_l1_active_minus1")))

DeblockLines(e) ==
  If(D(e, "deblocking_filter_control_present_flag") = 1,
     U(e, "disable_deblocking_filter_idc")
     \o If(D(e, "disable_deblocking_filter_idc") # 1,
           Is(e, <<"slice_alpha_c0_offset_div2", "slice_beta_offset_div2">>)))
CycleLines(e) ==
  If(D(e, "num_slice_groups_minus1") > 0 /\ D(e, "slice_group_map_type") \in 3..5,
     U(e, "slice_group_change_cycle"))

SliceLines(e) ==
  LET t == D(e, "slice_type")
  IN  FrontLines(e, IF D(e, "nal_unit_type") = 5 THEN 1 ELSE 0)
      \o If(IsB(t), U(e, "direct_spatial_mv_pred_flag"))
      \o If(IsP(t) \/ IsSP(t) \/ IsB(t), ActiveLines(e, IsB(t)))
      \o Block(e.n, "ref_pic_list_modification", RplmLines(In(e, "ref_pic_list_modification")))
      \o If((D(e, "weighted_pred_flag") = 1 /\ (IsP(t) \/ IsSP(t)))
            \/ (D(e, "weighted_bipred_idc") = 1 /\ IsB(t)),
            Block(e.n, "pred_weight_table", PwtLines(In(e, "pred_weight_table"))))
      \o If(D(e, "nal_ref_idc") # 0,
            Block(e.n, "dec_ref_pic_marking", DrpmLines(In(e, "dec_ref_pic_marking"))))
      \o If(D(e, "entropy_coding_mode_flag") = 1 /\ ~IsI(t) /\ ~IsSI(t), U(e, "cabac_init_idc"))
      \o I(e, "slice_qp_delta")
      \o If(IsSP(t), U(e, "sp_for_switch_flag"))
      \o If(IsSP(t) \/ IsSI(t), I(e, "slice_qs_delta"))
      \o DeblockLines(e) \o CycleLines(e)

ShiseLines(e) ==
  LET t == D(e, "slice_type")
      EP == t \in {0, 5}
      EB == t \in {1, 6}
      inter == D(e, "no_inter_layer_pred_flag") = 0
      restricted == D(e, "slice_header_restriction_flag") = 1
      skip == D(e, "slice_skip_flag") = 1
      scaled == Is(e, <<"scaled_ref_layer_left_offset", "scaled_ref_layer_top_offset",
                        "scaled_ref_layer_right_offset", "scaled_ref_layer_bottom_offset">>)
  IN  FrontLines(e, D(e, "idr_flag"))
      \o If(D(e, "quality_id") = 0,
            If(EB, U(e, "direct_spatial_mv_pred_flag"))
            \o If(EP \/ EB, ActiveLines(e, EB))
            \o Block(e.n, "ref_pic_list_modification", RplmLines(In(e, "ref_pic_list_modification")))
            \o If((D(e, "weighted_pred_flag") = 1 /\ EP) \/ (D(e, "weighted_bipred_idc") = 1 /\ EB),
                  If(inter, U(e, "base_pred_weight_table_flag"))
                  \o If(~inter \/ D(e, "base_pred_weight_table_flag") = 0,
                        Block(e.n, "pred_weight_table", PwtLines(In(e, "pred_weight_table")))))
            \o If(D(e, "nal_ref_idc") # 0,
                  Block(e.n, "dec_ref_pic_marking", DrpmLines(In(e, "dec_ref_pic_marking")))
                  \o If(~restricted, U(e, "store_ref_base_pic_flag"))))
      \o If(D(e, "entropy_coding_mode_flag") = 1 /\ t \notin {2, 7}, U(e, "cabac_init_idc"))
      \o I(e, "slice_qp_delta") \o DeblockLines(e) \o CycleLines(e)
      \o If(inter /\ D(e, "quality_id") = 0,
            U(e, "ref_layer_dq_id")
            \o If(D(e, "inter_layer_deblocking_filter_control_present_flag") = 1,
                  U(e, "disable_inter_layer_deblocking_filter_idc")
                  \o If(D(e, "disable_inter_layer_deblocking_filter_idc") # 1,
                        Is(e, <<"inter_layer_slice_alpha_c0_offset_div2",
                                "inter_layer_slice_beta_offset_div2">>)))
            \o U(e, "constrained_intra_resampling_flag")
            \o If(D(e, "extended_spatial_scalability_idc") = 2,
                  If(D(e, "ChromaArrayType") > 0,
                     Us(e, <<"ref_layer_chroma_phase_x_plus1_flag", "ref_layer_chroma_phase_y_plus1">>))
                  \o scaled))
      \o If(inter,
            U(e, "slice_skip_flag")
            \o (IF skip THEN U(e, "num_mbs_in_slice_minus1")
                ELSE U(e, "adaptive_base_mode_flag")
                     \o If(D(e, "adaptive_base_mode_flag") = 0, U(e, "default_base_mode_flag"))
                     \o If(D(e, "default_base_mode_flag") = 0,
                           U(e, "adaptive_motion_prediction_flag")
                           \o If(D(e, "adaptive_motion_prediction_flag") = 0,
                                 U(e, "default_motion_prediction_flag")))
                     \o U(e, "adaptive_residual_prediction_flag")
                     \o If(D(e, "adaptive_residual_prediction_flag") = 0,
                           U(e, "default_residual_prediction_flag")))
            \o If(D(e, "adaptive_tcoeff_level_prediction_flag") = 1,
                  U(e, "tcoeff_level_prediction_flag")))
      \o If(~restricted /\ ~skip, Us(e, <<"scan_idx_start", "scan_idx_end">>))

(***************************************************************************)
(* The NAL unit and the RTP packet                                         *)
(***************************************************************************)
PrefixLines(e) ==
  If(D(e, "nal_ref_idc") # 0,
     Us(e, <<"store_ref_base_pic_flag", "additional_prefix_nal_unit_extension_flag">>))
  \o If(D(e, "nal_ref_idc") = 0 \/ D(e, "additional_prefix_nal_unit_extension_flag") = 1,
        U(e, "additional_prefix_nal_unit_extension_data_flag"))

HeaderLines(h, n) ==
  LET e == At(h, "", n + 1)
      t == D(e, "nal_unit_type")
  IN  Block(n, "nal_unit_header",
        Us(e, <<"forbidden_zero_bit", "nal_ref_idc", "nal_unit_type">>)
        \o If(t \in {14, 20},
              U(e, "svc_extension_flag")
              \o If(D(e, "svc_extension_flag") = 1,
                    Block(n + 1, "nal_unit_header_svc_extension",
                          Us(In(e, "nal_unit_header_svc_extension"),
                             <<"idr_flag", "priority_id", "no_inter_layer_pred_flag",
                               "dependency_id", "quality_id", "temporal_id",
                               "use_ref_base_pic_flag", "discardable_flag", "output_flag",
                               "reserved_three_2bits">>))))
        \o If(t = 21, U(e, "avc_3d_extension_flag")))

\* r: a decoded NAL unit; a payload that was not decoded is an empty line
PayloadLines(r, n, resolution) ==
  LET m == n + 1
      k == IF r.parsed THEN r.kind ELSE "none"
      e(i) == At(r.f, "", i)
  IN  Block(n, "nal_unit_payload",
        CASE k = "sps"    -> Block(m, "sps",
                               Block(m + 1, "sps_data", SpsDataLines(e(m + 2), r.f, resolution)))
          [] k = "pps"    -> Block(m, "pps", PpsLines(e(m + 1)))
          [] k = "slice" /\ G(r.h, "nal_unit_type") # 20
                          -> Block(m, "slice_layer_without_partitioning_rbsp",
                               Block(m + 1, "slice_header", SliceLines(e(m + 2))))
          [] k = "slice"  -> Block(m, "slice_layer_extension_rbsp",
                               Block(m + 1, "slice_header", SliceLines(e(m + 2))))
          [] k = "shise"  -> Block(m, "slice_layer_extension_rbsp",
                               Block(m + 1, "slice_header_in_scalable_extension", ShiseLines(e(m + 2))))
          [] k = "subset" -> Block(m, "subset_sps", SubsetLines(e(m + 1), resolution))
          [] k = "prefix" -> Block(m, "prefix_nal_unit_rbsp",
                               Block(m + 1, "prefix_nal_unit_svc",
                                     PrefixLines(In(e(m + 1), "prefix_nal_unit_svc"))))
          [] OTHER        -> L(m, ""))

Bit(mask, b) == (mask \div b) % 2 = 1
NalLinesAt(r, off, len, plen, mask) ==
  Block(0, "nal_unit",
    If(Bit(mask, 1), L(1, "offset: " \o off))
    \o If(Bit(mask, 2), L(1, "length: " \o len))
    \o If(Bit(mask, 4), L(1, "parsed_length: " \o plen))
    \o If(Bit(mask, 8), L(1, "checksum: 0x" \o HexBytes(r.ck)))
    \o HeaderLines(r.h, 1) \o PayloadLines(r, 1, Bit(mask, 16)))

NalLines(r, off, len, mask) == NalLinesAt(r, Hex8(off), ToString(len), Hex8(r.plen), mask)
\* the numbers given by their digits: they can have 64 bits
Digits(q) == FoldLeft(LAMBDA a, v : a \o HexD[v + 1], "", q)
LongHex(q) == "0x" \o Digits([i \in 1..Max2(0, 8 - Len(q)) |-> 0] \o q)
FarLines(r, at, mask) == NalLinesAt(r, LongHex(at[1]), Digits(at[2]), LongHex(at[3]), mask)

RtpLines(r, resolution) ==
  Block(0, "rtp",
    HeaderLines(r.h, 1)
    \o (CASE r.form = "single" ->
               Block(1, "rtp_single", HeaderLines(r.units[1].r.h, 2)
                                      \o PayloadLines(r.units[1].r, 2, resolution))
          [] r.form = "stapa" ->
               Block(1, "rtp_stapa",
                     FoldLeft(LAMBDA a, u : a \o L(2, "nal_unit_size: " \o ToString(u.size))
                                            \o HeaderLines(u.r.h, 2) \o PayloadLines(u.r, 2, resolution),
                              HeaderLines(r.h, 2), r.units))
          [] r.form = "fua" ->
               Block(1, "rtp_fua",
                     HeaderLines(r.h, 2)
                     \o L(2, "s_bit: " \o ToString(r.fu[1])) \o L(2, "e_bit: " \o ToString(r.fu[2]))
                     \o L(2, "r_bit: " \o ToString(r.fu[3])) \o L(2, "fu_type: " \o ToString(r.fu[4]))
                     \o If(r.fu[1] = 1, PayloadLines(r.units[1].r, 2, resolution)))
          [] OTHER -> <<>>))

(***************************************************************************)
(* The two forms of a text: as the lines of a file, or on one line.        *)
(***************************************************************************)
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE "  " \o Spaces(n - 1)
Indents == [n \in 0..12 |-> Spaces(n)]
Indented(ls) == [i \in 1..Len(ls) |-> Indents[ls[i].n] \o ls[i].t]
OneLine(ls) == FoldLeft(LAMBDA a, x : IF a = "" THEN x.t ELSE a \o " " \o x.t, "", ls)
=============================================================================
