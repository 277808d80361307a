--------------------------------- MODULE Sps ---------------------------------
(* 7.3.2.1.1 seq_parameter_set_data(), E.1 VUI and HRD, 7.3.2.1.2 extension *)
EXTENDS Syntax

HighProfiles == {100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}

MaxMbWidth == 1055
MaxMbHeight == 1055
MaxWidth == 16880
MaxHeight == 16880
MaxMbPicSize == 139264
MaxDpbFrames == 16

(***************************************************************************)
(* scaling_list() (7.3.2.1.1.1).  The parser keeps the most recent 4x4 and *)
(* the most recent 8x8 list, one UseDefault flag per list index, and the   *)
(* last delta_scale.                                                       *)
(***************************************************************************)
SetAt(q, i, v) ==      \* q[i] := v (0-based), growing with zeros
  [k \in 1..Max2(Len(q), i + 1) |-> IF k = i + 1 THEN v
                                    ELSE IF k <= Len(q) THEN q[k] ELSE 0]
VSeq(s, nm) == IF (s.pfx \o nm) \in DOMAIN s.f THEN s.f[s.pfx \o nm] ELSE <<>>

ScalingStep(a, j, idx, flagName) ==      \* j = 1..size
  IF ~a.s.ok THEN a
  ELSE LET s1 == IF a.next # 0 THEN a.s ++ FSE("delta_scale", -128, 127) ELSE a.s
           nx == IF a.next # 0 THEN (a.last + V(s1, "delta_scale") + 256) % 256 ELSE 0
           s2 == IF a.next # 0
                 THEN Def(s1, flagName, SetAt(VSeq(s1, flagName), idx,
                                              IF j = 1 /\ nx = 0 THEN 1 ELSE 0))
                 ELSE s1
           v  == IF nx = 0 THEN a.last ELSE nx
       IN  IF ~s1.ok THEN [a EXCEPT !.s = s1]
           ELSE [s |-> s2, last |-> v, next |-> nx, list |-> Append(a.list, v)]
ScalingOf(s, size, idx, flagName) ==
  LET r == FoldLeft(LAMBDA a, j : ScalingStep(a, j, idx, flagName),
                    [s |-> s, last |-> 8, next |-> 8, list |-> <<>>], OneTo(size))
  IN  Def(r.s, IF size = 16 THEN "ScalingList4x4" ELSE "ScalingList8x8", r.list)
ScalingList(s, i) ==
  IF i < 6 THEN ScalingOf(s, 16, i, "UseDefaultScalingMatrix4x4Flag")
  ELSE ScalingOf(s, 64, i - 6, "UseDefaultScalingMatrix8x8Flag")

(***************************************************************************)
(* E.1.2 hrd_parameters()                                                  *)
(***************************************************************************)
Hrd(s0) ==
  LET a == s0 ++ FUE("cpb_cnt_minus1", 31) ++ FU("bit_rate_scale", 4)
              ++ FU("cpb_size_scale", 4)
      b == Repeat(a, V(a, "cpb_cnt_minus1") + 1,
                  LAMBDA c, i : c ++ VUEany("bit_rate_value_minus1")
                                  ++ VUEany("cpb_size_value_minus1") ++ VU("cbr_flag", 1))
  IN  b ++ FU("initial_cpb_removal_delay_length_minus1", 5)
        ++ FU("cpb_removal_delay_length_minus1", 5)
        ++ FU("dpb_output_delay_length_minus1", 5) ++ FU("time_offset_length", 5)

(***************************************************************************)
(* E.1.1 vui_parameters()                                                  *)
(***************************************************************************)
Vui(s0) ==
  LET a  == s0 ++ FU("aspect_ratio_info_present_flag", 1)
      a1 == IF V(a, "aspect_ratio_info_present_flag") = 1
            THEN a ++ FU("aspect_ratio_idc", 8) ELSE a
      b  == IF V(a1, "aspect_ratio_info_present_flag") = 1 /\ V(a1, "aspect_ratio_idc") = 255
            THEN a1 ++ FU("sar_width", 16) ++ FU("sar_height", 16) ELSE a1
      c  == b ++ FU("overscan_info_present_flag", 1)
      d  == IF V(c, "overscan_info_present_flag") = 1
            THEN c ++ FU("overscan_appropriate_flag", 1) ELSE c
      e  == d ++ FU("video_signal_type_present_flag", 1)
      e1 == IF V(e, "video_signal_type_present_flag") = 1
            THEN e ++ FU("video_format", 3) ++ FU("video_full_range_flag", 1)
                   ++ FU("colour_description_present_flag", 1) ELSE e
      g  == IF V(e1, "colour_description_present_flag") = 1
            THEN e1 ++ FU("colour_primaries", 8) ++ FU("transfer_characteristics", 8)
                    ++ FU("matrix_coefficients", 8) ELSE e1
      h  == g ++ FU("chroma_loc_info_present_flag", 1)
      i  == IF V(h, "chroma_loc_info_present_flag") = 1
            THEN h ++ FUE("chroma_sample_loc_type_top_field", 5)
                   ++ FUE("chroma_sample_loc_type_bottom_field", 5) ELSE h
      j  == i ++ FU("timing_info_present_flag", 1)
      k  == IF V(j, "timing_info_present_flag") = 1
            THEN j ++ FUnz("num_units_in_tick", 32) ++ FUnz("time_scale", 32)
                   ++ FU("fixed_frame_rate_flag", 1) ELSE j
      l  == k ++ FU("nal_hrd_parameters_present_flag", 1)
      m  == IF V(l, "nal_hrd_parameters_present_flag") = 1
            THEN Back(Hrd(Within(l, "nal_hrd_parameters")), l) ELSE l
      n  == m ++ FU("vcl_hrd_parameters_present_flag", 1)
      o  == IF V(n, "vcl_hrd_parameters_present_flag") = 1
            THEN Back(Hrd(Within(n, "vcl_hrd_parameters")), n) ELSE n
      p  == IF V(o, "nal_hrd_parameters_present_flag") = 1
               \/ V(o, "vcl_hrd_parameters_present_flag") = 1
            THEN o ++ FU("low_delay_hrd_flag", 1) ELSE o
      q  == p ++ FU("pic_struct_present_flag", 1) ++ FU("bitstream_restriction_flag", 1)
  IN  IF V(q, "bitstream_restriction_flag") = 1
      THEN q ++ FU("motion_vectors_over_pic_boundaries_flag", 1)
             ++ FUE("max_bytes_per_pic_denom", 16) ++ FUE("max_bits_per_mb_denom", 16)
             ++ FUE("log2_max_mv_length_horizontal", 16)
             ++ FUE("log2_max_mv_length_vertical", 16)
             ++ FUE("max_num_reorder_frames", MaxDpbFrames)
             ++ FUE("max_dec_frame_buffering", MaxDpbFrames)
      ELSE q

(***************************************************************************)
(* Derived values of an SPS record r (unprefixed field record).            *)
(***************************************************************************)
G(r, nm) == IF nm \in DOMAIN r THEN r[nm] ELSE 0
ChromaArrayType(r) == IF G(r, "separate_colour_plane_flag") = 1 THEN 0
                      ELSE G(r, "chroma_format_idc")
SubWidthC(r)  == LET c == G(r, "chroma_format_idc") IN
  IF G(r, "separate_colour_plane_flag") = 1 THEN -1
  ELSE CASE c = 1 -> 2 [] c = 2 -> 2 [] c = 3 -> 1 [] OTHER -> -1
SubHeightC(r) == LET c == G(r, "chroma_format_idc") IN
  IF G(r, "separate_colour_plane_flag") = 1 THEN -1
  ELSE CASE c = 1 -> 2 [] c = 2 -> 1 [] c = 3 -> 1 [] OTHER -> -1
CropUnitX(r) == IF ChromaArrayType(r) = 0 THEN 1 ELSE SubWidthC(r)
CropUnitY(r) == (IF ChromaArrayType(r) = 0 THEN 1 ELSE SubHeightC(r))
                * (2 - G(r, "frame_mbs_only_flag"))
PicWidthInSamples(r) == 16 * (G(r, "pic_width_in_mbs_minus1") + 1)
FrameHeightInSamples(r) == 16 * (2 - G(r, "frame_mbs_only_flag"))
                              * (G(r, "pic_height_in_map_units_minus1") + 1)
CroppedX(r) == CropUnitX(r) * (G(r, "frame_crop_left_offset") + G(r, "frame_crop_right_offset"))
CroppedY(r) == CropUnitY(r) * (G(r, "frame_crop_top_offset") + G(r, "frame_crop_bottom_offset"))
OutWidth(r)  == PicWidthInSamples(r) - CroppedX(r)
OutHeight(r) == FrameHeightInSamples(r) - CroppedY(r)

\* numbering of h264_common.h's ProfileType
ProfileType(r) ==
  LET p == G(r, "profile_idc")
      cs(i) == CASE i = 1 -> G(r, "constraint_set1_flag") = 1
                 [] i = 3 -> G(r, "constraint_set3_flag") = 1
                 [] i = 4 -> G(r, "constraint_set4_flag") = 1
                 [] i = 5 -> G(r, "constraint_set5_flag") = 1
  IN CASE p = 66  -> IF cs(1) THEN "Constrained Baseline" ELSE "Baseline"
       [] p = 77  -> "Main"
       [] p = 88  -> "Extended"
       [] p = 100 -> IF cs(4) THEN "Progressive High" ELSE IF cs(5) THEN "Constrained High" ELSE "High"
       [] p = 110 -> IF cs(3) THEN "High 10 Intra" ELSE IF cs(4) THEN "Progressive High 10" ELSE "High 10"
       [] p = 122 -> IF cs(3) THEN "High 4:2:2 Intra" ELSE "High 4:2:2"
       [] p = 144 -> IF cs(3) THEN "High 4:4:4 Intra" ELSE "High 4:4:4"
       [] p = 244 -> IF cs(3) THEN "High 4:4:4 Predictive Intra" ELSE "High 4:4:4 Predictive"
       [] p = 44  -> "CAVLC 4:4:4 Intra"
       [] OTHER   -> "Unspecified"

\* the unprefixed record of the structure s is at
Strip(s) == IF s.pfx = "" THEN s.f
            ELSE LET L == Len(s.pfx)
                     ks == {k \in DOMAIN s.f : Len(k) > L /\ SubSeq(k, 1, L) = s.pfx}
                 IN [u \in {SubSeq(k, L + 1, Len(k)) : k \in ks} |-> s.f[s.pfx \o u]]

(***************************************************************************)
(* 7.3.2.1.1 seq_parameter_set_data()                                      *)
(***************************************************************************)
SpsData(s0) ==
  LET a == s0 ++ FU("profile_idc", 8) ++ FU("constraint_set0_flag", 1)
              ++ FU("constraint_set1_flag", 1) ++ FU("constraint_set2_flag", 1)
              ++ FU("constraint_set3_flag", 1) ++ FU("constraint_set4_flag", 1)
              ++ FU("constraint_set5_flag", 1) ++ FU("reserved_zero_2bits", 2)
              ++ FU("level_idc", 8) ++ FUE("seq_parameter_set_id", 31)
      hp == V(a, "profile_idc") \in HighProfiles
      b  == IF hp THEN a ++ FUE("chroma_format_idc", 3) ELSE Def(a, "chroma_format_idc", 1)
      b1 == IF hp /\ V(b, "chroma_format_idc") = 3
            THEN b ++ FU("separate_colour_plane_flag", 1) ELSE b
      c  == IF hp THEN b1 ++ FUE("bit_depth_luma_minus8", 6) ++ FUE("bit_depth_chroma_minus8", 6)
                          ++ FU("qpprime_y_zero_transform_bypass_flag", 1)
                          ++ FU("seq_scaling_matrix_present_flag", 1)
            ELSE b1
      nlists == IF V(c, "chroma_format_idc") # 3 THEN 8 ELSE 12
      d  == IF V(c, "seq_scaling_matrix_present_flag") = 1
            THEN Repeat(c, nlists, LAMBDA x, i :
                   LET y == x ++ VU("seq_scaling_list_present_flag", 1)
                   IN  IF y.ok /\ VecLast(y, "seq_scaling_list_present_flag") = 1
                       THEN ScalingList(y, i) ELSE y)
            ELSE c
      e  == d ++ FUE("log2_max_frame_num_minus4", 12) ++ FUE("pic_order_cnt_type", 2)
      e1 == IF V(e, "pic_order_cnt_type") = 0
            THEN e ++ FUE("log2_max_pic_order_cnt_lsb_minus4", 12)
            ELSE IF V(e, "pic_order_cnt_type") = 1
            THEN LET g == e ++ FU("delta_pic_order_always_zero_flag", 1)
                            ++ FSEany("offset_for_non_ref_pic")
                            ++ FSEany("offset_for_top_to_bottom_field")
                            ++ FUE("num_ref_frames_in_pic_order_cnt_cycle", 255)
                 IN  Repeat(g, V(g, "num_ref_frames_in_pic_order_cnt_cycle"),
                            LAMBDA x, i : x ++ VSEany("offset_for_ref_frame"))
            ELSE e
      h  == e1 ++ FUE("max_num_ref_frames", MaxDpbFrames)
               ++ FU("gaps_in_frame_num_value_allowed_flag", 1)
               ++ FUE("pic_width_in_mbs_minus1", MaxMbWidth)
               ++ FUE("pic_height_in_map_units_minus1", MaxMbHeight)
               ++ FU("frame_mbs_only_flag", 1)
      i1 == IF V(h, "frame_mbs_only_flag") = 0
            THEN h ++ FU("mb_adaptive_frame_field_flag", 1) ELSE h
      j  == i1 ++ FU("direct_8x8_inference_flag", 1) ++ FU("frame_cropping_flag", 1)
      k  == IF V(j, "frame_cropping_flag") = 1
            THEN LET x == j ++ FUE("frame_crop_left_offset", MaxWidth)
                            ++ FUE("frame_crop_right_offset", MaxWidth)
                            ++ FUE("frame_crop_top_offset", MaxHeight)
                            ++ FUE("frame_crop_bottom_offset", MaxHeight)
                 IN  IF ~x.ok THEN x
                     ELSE LET r == Strip(x)
                          IN  Require(x, CroppedX(r) < PicWidthInSamples(r)
                                         /\ CroppedY(r) < FrameHeightInSamples(r))
            ELSE j
      l  == k ++ FU("vui_parameters_present_flag", 1)
  IN  IF V(l, "vui_parameters_present_flag") = 1
      THEN Back(Vui(Within(l, "vui_parameters")), l) ELSE l

Sps(s) == Trailing(SpsData(s))

\* 7.3.2.1.2 seq_parameter_set_extension_rbsp()
SpsExtension(s0) ==
  LET a == s0 ++ FUE("seq_parameter_set_id", 31) ++ FUEany("aux_format_idc")
      b == IF V(a, "aux_format_idc") # 0
           THEN LET c == a ++ FUE("bit_depth_aux_minus8", 4) ++ FU("alpha_incr_flag", 1)
                IN  c ++ FU("alpha_opaque_value", V(c, "bit_depth_aux_minus8") + 9)
                      ++ FU("alpha_transparent_value", V(c, "bit_depth_aux_minus8") + 9)
           ELSE a
  IN  Trailing(b ++ FU("additional_extension_flag", 1))
=============================================================================
