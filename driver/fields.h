// Flattens the public state structures of h264nal into JSON objects:
// non-zero scalars, non-empty vectors, and "<name>.@":1 for every
// sub-structure that is present. uint32_t values are emitted as the int32_t
// with the same bits (TLC integers are 32 bit).
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

#include "h264_bitstream_parser.h"
#include "h264_bitstream_parser_state.h"
#include "h264_nal_unit_parser.h"
#ifdef RTP_DEFINE
#include "h264_rtp_parser.h"
#endif
#include "h264_sps_extension_parser.h"

struct Out {
  std::string s;
  std::string pfx;
  bool first = true;
  void key(const std::string& k) {
    if (!first) s += ",";
    first = false;
    s += "\"" + pfx + k + "\":";
  }
  static std::string i32(uint32_t v) { return std::to_string((int32_t)v); }
  void n(const char* k, uint32_t v) {
    if (v == 0) return;
    key(k);
    s += i32(v);
  }
  template <class T>
  void v(const char* k, const std::vector<T>& x) {
    if (x.empty()) return;
    key(k);
    s += "[";
    for (size_t i = 0; i < x.size(); ++i) {
      if (i) s += ",";
      s += i32((uint32_t)x[i]);
    }
    s += "]";
  }
  void vv(const char* k, const std::vector<std::vector<int32_t>>& x) {
    std::vector<int32_t> flat;
    for (auto& y : x) flat.insert(flat.end(), y.begin(), y.end());
    v(k, flat);
  }
  std::string enter(const char* name) {
    std::string old = pfx;
    pfx += std::string(name) + ".";
    n("@", 1);
    return old;
  }
  void leave(const std::string& old) { pfx = old; }
};

using namespace h264nal;

#define N(f) o.n(#f, (uint32_t)x.f)
#define VEC(f) o.v(#f, x.f)
#define VV(f) o.vv(#f, x.f)
#define SUB(f, fn)                 \
  if (x.f != nullptr) {            \
    auto old_ = o.enter(#f);       \
    fn(o, *x.f);                   \
    o.leave(old_);                 \
  }

inline void F(Out& o, const H264HrdParametersParser::HrdParametersState& x) {
  N(cpb_cnt_minus1); N(bit_rate_scale); N(cpb_size_scale);
  VEC(bit_rate_value_minus1); VEC(cpb_size_value_minus1); VEC(cbr_flag);
  N(initial_cpb_removal_delay_length_minus1); N(cpb_removal_delay_length_minus1);
  N(dpb_output_delay_length_minus1); N(time_offset_length);
}
inline void F(Out& o, const H264VuiParametersParser::VuiParametersState& x) {
  N(aspect_ratio_info_present_flag); N(aspect_ratio_idc); N(sar_width);
  N(sar_height); N(overscan_info_present_flag); N(overscan_appropriate_flag);
  N(video_signal_type_present_flag); N(video_format); N(video_full_range_flag);
  N(colour_description_present_flag); N(colour_primaries);
  N(transfer_characteristics); N(matrix_coefficients);
  N(chroma_loc_info_present_flag); N(chroma_sample_loc_type_top_field);
  N(chroma_sample_loc_type_bottom_field); N(timing_info_present_flag);
  N(num_units_in_tick); N(time_scale); N(fixed_frame_rate_flag);
  N(nal_hrd_parameters_present_flag); SUB(nal_hrd_parameters, F);
  N(vcl_hrd_parameters_present_flag); SUB(vcl_hrd_parameters, F);
  N(low_delay_hrd_flag); N(pic_struct_present_flag);
  N(bitstream_restriction_flag); N(motion_vectors_over_pic_boundaries_flag);
  N(max_bytes_per_pic_denom); N(max_bits_per_mb_denom);
  N(log2_max_mv_length_horizontal); N(log2_max_mv_length_vertical);
  N(max_num_reorder_frames); N(max_dec_frame_buffering);
}
inline void F(Out& o, const H264SpsDataParser::SpsDataState& x) {
  N(profile_idc); N(constraint_set0_flag); N(constraint_set1_flag);
  N(constraint_set2_flag); N(constraint_set3_flag); N(constraint_set4_flag);
  N(constraint_set5_flag); N(reserved_zero_2bits); N(level_idc);
  N(seq_parameter_set_id); N(chroma_format_idc); N(separate_colour_plane_flag);
  N(bit_depth_luma_minus8); N(bit_depth_chroma_minus8);
  N(qpprime_y_zero_transform_bypass_flag); N(seq_scaling_matrix_present_flag);
  VEC(seq_scaling_list_present_flag); VEC(ScalingList4x4);
  VEC(UseDefaultScalingMatrix4x4Flag); VEC(ScalingList8x8);
  VEC(UseDefaultScalingMatrix8x8Flag); N(delta_scale);
  N(log2_max_frame_num_minus4); N(pic_order_cnt_type);
  N(log2_max_pic_order_cnt_lsb_minus4); N(delta_pic_order_always_zero_flag);
  N(offset_for_non_ref_pic); N(offset_for_top_to_bottom_field);
  N(num_ref_frames_in_pic_order_cnt_cycle); VEC(offset_for_ref_frame);
  N(max_num_ref_frames); N(gaps_in_frame_num_value_allowed_flag);
  N(pic_width_in_mbs_minus1); N(pic_height_in_map_units_minus1);
  N(frame_mbs_only_flag); N(mb_adaptive_frame_field_flag);
  N(direct_8x8_inference_flag); N(frame_cropping_flag);
  N(frame_crop_left_offset); N(frame_crop_right_offset);
  N(frame_crop_top_offset); N(frame_crop_bottom_offset);
  N(vui_parameters_present_flag); SUB(vui_parameters, F);
}
inline void F(Out& o, const H264SpsExtensionParser::SpsExtensionState& x) {
  N(seq_parameter_set_id); N(aux_format_idc); N(bit_depth_aux_minus8);
  N(alpha_incr_flag); N(alpha_opaque_value); N(alpha_transparent_value);
  N(additional_extension_flag);
}
inline void F(Out& o, const H264PpsParser::PpsState& x) {
  N(chroma_format_idc); N(pic_parameter_set_id); N(seq_parameter_set_id);
  N(entropy_coding_mode_flag); N(bottom_field_pic_order_in_frame_present_flag);
  N(num_slice_groups_minus1); N(slice_group_map_type); VEC(run_length_minus1);
  VEC(top_left); VEC(bottom_right); N(slice_group_change_direction_flag);
  N(slice_group_change_rate_minus1); N(pic_size_in_map_units_minus1);
  VEC(slice_group_id); N(num_ref_idx_l0_default_active_minus1);
  N(num_ref_idx_l1_default_active_minus1); N(weighted_pred_flag);
  N(weighted_bipred_idc); N(pic_init_qp_minus26); N(pic_init_qs_minus26);
  N(chroma_qp_index_offset); N(deblocking_filter_control_present_flag);
  N(constrained_intra_pred_flag); N(redundant_pic_cnt_present_flag);
  N(transform_8x8_mode_flag); N(pic_scaling_matrix_present_flag);
  VEC(pic_scaling_list_present_flag); VEC(ScalingList4x4);
  VEC(UseDefaultScalingMatrix4x4Flag); VEC(ScalingList8x8);
  VEC(UseDefaultScalingMatrix8x8Flag); N(delta_scale);
  N(second_chroma_qp_index_offset);
}
inline void F(
    Out& o,
    const H264RefPicListModificationParser::RefPicListModificationState& x) {
  N(slice_type); N(ref_pic_list_modification_flag_l0);
  VEC(modification_of_pic_nums_idc); VEC(abs_diff_pic_num_minus1);
  VEC(long_term_pic_num); N(ref_pic_list_modification_flag_l1);
}
inline void F(Out& o,
              const H264PredWeightTableParser::PredWeightTableState& x) {
  N(chroma_array_type); N(slice_type); N(num_ref_idx_l0_active_minus1);
  N(num_ref_idx_l1_active_minus1); N(luma_log2_weight_denom);
  N(chroma_log2_weight_denom); VEC(luma_weight_l0_flag); VEC(luma_weight_l0);
  VEC(luma_offset_l0); VEC(chroma_weight_l0_flag); VV(chroma_weight_l0);
  VV(chroma_offset_l0); VEC(luma_weight_l1_flag); VEC(luma_weight_l1);
  VEC(luma_offset_l1); VEC(chroma_weight_l1_flag); VV(chroma_weight_l1);
  VV(chroma_offset_l1);
}
inline void F(Out& o,
              const H264DecRefPicMarkingParser::DecRefPicMarkingState& x) {
  N(IdrPicFlag); N(no_output_of_prior_pics_flag); N(long_term_reference_flag);
  N(adaptive_ref_pic_marking_mode_flag);
  VEC(memory_management_control_operation); VEC(difference_of_pic_nums_minus1);
  VEC(long_term_pic_num); VEC(long_term_frame_idx);
  VEC(max_long_term_frame_idx_plus1);
}
inline void F(Out& o, const H264SliceHeaderParser::SliceHeaderState& x) {
  N(nal_ref_idc); N(nal_unit_type); N(separate_colour_plane_flag);
  N(log2_max_frame_num_minus4); N(frame_mbs_only_flag); N(pic_order_cnt_type);
  N(bottom_field_pic_order_in_frame_present_flag);
  N(delta_pic_order_always_zero_flag); N(redundant_pic_cnt_present_flag);
  N(weighted_pred_flag); N(weighted_bipred_idc); N(entropy_coding_mode_flag);
  N(deblocking_filter_control_present_flag); N(num_slice_groups_minus1);
  N(slice_group_map_type); N(pic_width_in_mbs_minus1);
  N(pic_height_in_map_units_minus1); N(slice_group_change_rate_minus1);
  N(first_mb_in_slice); N(slice_type); N(pic_parameter_set_id);
  N(colour_plane_id); N(frame_num); N(field_pic_flag); N(bottom_field_flag);
  N(idr_pic_id); N(pic_order_cnt_lsb); N(delta_pic_order_cnt_bottom);
  VEC(delta_pic_order_cnt); N(redundant_pic_cnt);
  N(direct_spatial_mv_pred_flag); N(num_ref_idx_active_override_flag);
  N(num_ref_idx_l0_active_minus1); N(num_ref_idx_l1_active_minus1);
  SUB(ref_pic_list_modification, F); SUB(pred_weight_table, F);
  SUB(dec_ref_pic_marking, F); N(cabac_init_idc); N(sp_for_switch_flag);
  N(slice_qp_delta); N(slice_qs_delta); N(disable_deblocking_filter_idc);
  N(slice_alpha_c0_offset_div2); N(slice_beta_offset_div2);
  N(slice_group_change_cycle);
}
inline void F(Out& o, const H264SliceHeaderInScalableExtensionParser::
                          SliceHeaderInScalableExtensionState& x) {
  N(nal_ref_idc); N(nal_unit_type); N(separate_colour_plane_flag);
  N(log2_max_frame_num_minus4); N(frame_mbs_only_flag); N(pic_order_cnt_type);
  N(bottom_field_pic_order_in_frame_present_flag);
  N(delta_pic_order_always_zero_flag); N(redundant_pic_cnt_present_flag);
  N(weighted_pred_flag); N(weighted_bipred_idc); N(no_inter_layer_pred_flag);
  N(quality_id); N(ChromaArrayType); N(slice_header_restriction_flag);
  N(use_ref_base_pic_flag); N(idr_flag); N(entropy_coding_mode_flag);
  N(deblocking_filter_control_present_flag); N(num_slice_groups_minus1);
  N(slice_group_map_type); N(pic_width_in_mbs_minus1);
  N(pic_height_in_map_units_minus1); N(slice_group_change_rate_minus1);
  N(inter_layer_deblocking_filter_control_present_flag);
  N(extended_spatial_scalability_idc);
  N(adaptive_tcoeff_level_prediction_flag); N(first_mb_in_slice);
  N(slice_type); N(pic_parameter_set_id); N(colour_plane_id); N(frame_num);
  N(field_pic_flag); N(bottom_field_flag); N(idr_pic_id);
  N(pic_order_cnt_lsb); N(delta_pic_order_cnt_bottom);
  VEC(delta_pic_order_cnt); N(redundant_pic_cnt);
  N(direct_spatial_mv_pred_flag); N(num_ref_idx_active_override_flag);
  N(num_ref_idx_l0_active_minus1); N(num_ref_idx_l1_active_minus1);
  SUB(ref_pic_list_modification, F); N(base_pred_weight_table_flag);
  SUB(pred_weight_table, F); SUB(dec_ref_pic_marking, F);
  N(store_ref_base_pic_flag); N(cabac_init_idc); N(slice_qp_delta);
  N(disable_deblocking_filter_idc); N(slice_alpha_c0_offset_div2);
  N(slice_beta_offset_div2); N(slice_group_change_cycle); N(ref_layer_dq_id);
  N(disable_inter_layer_deblocking_filter_idc);
  N(inter_layer_slice_alpha_c0_offset_div2);
  N(inter_layer_slice_beta_offset_div2); N(constrained_intra_resampling_flag);
  N(ref_layer_chroma_phase_x_plus1_flag); N(ref_layer_chroma_phase_y_plus1);
  N(scaled_ref_layer_left_offset); N(scaled_ref_layer_top_offset);
  N(scaled_ref_layer_right_offset); N(scaled_ref_layer_bottom_offset);
  N(slice_skip_flag); N(num_mbs_in_slice_minus1); N(adaptive_base_mode_flag);
  N(default_base_mode_flag); N(adaptive_motion_prediction_flag);
  N(default_motion_prediction_flag); N(adaptive_residual_prediction_flag);
  N(default_residual_prediction_flag); N(tcoeff_level_prediction_flag);
  N(scan_idx_start); N(scan_idx_end);
}
inline void F(Out& o, const H264NalUnitHeaderSvcExtensionParser::
                          NalUnitHeaderSvcExtensionState& x) {
  N(idr_flag); N(priority_id); N(no_inter_layer_pred_flag); N(dependency_id);
  N(quality_id); N(temporal_id); N(use_ref_base_pic_flag);
  N(discardable_flag); N(output_flag); N(reserved_three_2bits);
}
inline void F(Out& o, const H264NalUnitHeaderParser::NalUnitHeaderState& x) {
  N(forbidden_zero_bit); N(nal_ref_idc); N(nal_unit_type);
  N(svc_extension_flag); N(avc_3d_extension_flag);
  SUB(nal_unit_header_svc_extension, F);
}
inline void F(Out& o,
              const H264PrefixNalUnitSvcParser::PrefixNalUnitSvcState& x) {
  N(nal_ref_idc); N(use_ref_base_pic_flag); N(idr_flag);
  N(store_ref_base_pic_flag); N(additional_prefix_nal_unit_extension_flag);
  N(additional_prefix_nal_unit_extension_data_flag);
}
inline void F(Out& o,
              const H264PrefixNalUnitRbspParser::PrefixNalUnitRbspState& x) {
  N(svc_extension_flag); N(nal_ref_idc); N(use_ref_base_pic_flag);
  N(idr_flag); SUB(prefix_nal_unit_svc, F);
}
inline void F(Out& o,
              const H264SpsSvcExtensionParser::SpsSvcExtensionState& x) {
  N(ChromaArrayType); N(inter_layer_deblocking_filter_control_present_flag);
  N(extended_spatial_scalability_idc); N(chroma_phase_x_plus1_flag);
  N(chroma_phase_y_plus1); N(seq_ref_layer_chroma_phase_x_plus1_flag);
  N(seq_ref_layer_chroma_phase_y_plus1); N(seq_scaled_ref_layer_left_offset);
  N(seq_scaled_ref_layer_top_offset); N(seq_scaled_ref_layer_right_offset);
  N(seq_scaled_ref_layer_bottom_offset); N(seq_tcoeff_level_prediction_flag);
  N(adaptive_tcoeff_level_prediction_flag); N(slice_header_restriction_flag);
}
inline void F(Out& o, const H264SubsetSpsParser::SubsetSpsState& x) {
  SUB(seq_parameter_set_data, F); SUB(seq_parameter_set_svc_extension, F);
  N(svc_vui_parameters_present_flag); N(bit_equal_to_one);
  N(mvc_vui_parameters_present_flag); N(additional_extension2_flag);
  N(additional_extension2_data_flag);
}

template <class T>
std::string J(const T& x) {
  Out o;
  F(o, x);
  return "{" + o.s + "}";
}
