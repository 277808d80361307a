--------------------------------- MODULE Pps ---------------------------------
(* 7.3.2.2 pic_parameter_set_rbsp() *)
EXTENDS Sps

CeilLog2(n) == Width(n - 1)              \* Ceil(Log2(n)), n >= 1

SliceGroups(s) ==
  LET a == s ++ FUE("slice_group_map_type", 6)
      t == V(a, "slice_group_map_type")
      n == V(a, "num_slice_groups_minus1")
  IN  CASE t = 0 -> Repeat(a, n + 1, LAMBDA c, i : c ++ VUEany("run_length_minus1"))
        [] t = 2 -> Repeat(a, n, LAMBDA c, i : c ++ VUEany("top_left")
                                                 ++ VUEany("bottom_right"))
        [] t \in 3..5 -> a ++ FU("slice_group_change_direction_flag", 1)
                           ++ FUEany("slice_group_change_rate_minus1")
        [] t = 6 -> LET b == a ++ FUE("pic_size_in_map_units_minus1", MaxMbPicSize - 1)
                    IN  Repeat(b, V(b, "pic_size_in_map_units_minus1") + 1,
                               LAMBDA c, i : c ++ VU("slice_group_id", CeilLog2(n + 1)))
        [] OTHER -> a

\* The tail is present if more_rbsp_data().  chroma_format_idc is that of the
\* SPS in the standard; the parser is told it by its caller.
PpsTail(s, cfi) ==
  LET a == s ++ FU("transform_8x8_mode_flag", 1) ++ FU("pic_scaling_matrix_present_flag", 1)
      n == 6 + (IF cfi # 3 THEN 2 ELSE 6) * V(a, "transform_8x8_mode_flag")
      b == IF V(a, "pic_scaling_matrix_present_flag") = 1
           THEN Repeat(a, n, LAMBDA x, i :
                  LET y == x ++ VU("pic_scaling_list_present_flag", 1)
                  IN  IF y.ok /\ VecLast(y, "pic_scaling_list_present_flag") = 1
                      THEN ScalingList(y, i) ELSE y)
           ELSE a
  IN  b ++ FSEany("second_chroma_qp_index_offset")

Pps(s0, cfi) ==
  LET a == Def(s0, "chroma_format_idc", cfi)
              ++ FUE("pic_parameter_set_id", 255) ++ FUE("seq_parameter_set_id", 31)
              ++ FU("entropy_coding_mode_flag", 1)
              ++ FU("bottom_field_pic_order_in_frame_present_flag", 1)
              ++ FUE("num_slice_groups_minus1", 7)
      b == IF V(a, "num_slice_groups_minus1") > 0 THEN SliceGroups(a) ELSE a
      c == b ++ FUE("num_ref_idx_l0_default_active_minus1", 31)
             ++ FUE("num_ref_idx_l1_default_active_minus1", 31)
             ++ FU("weighted_pred_flag", 1) ++ FU("weighted_bipred_idc", 2)
             ++ FSEany("pic_init_qp_minus26") ++ FSEany("pic_init_qs_minus26")
             ++ FSEany("chroma_qp_index_offset")
             ++ FU("deblocking_filter_control_present_flag", 1)
             ++ FU("constrained_intra_pred_flag", 1) ++ FU("redundant_pic_cnt_present_flag", 1)
      m == More(c)
  IN  Trailing(IF m.yes THEN PpsTail(m.s, cfi) ELSE m.s)
=============================================================================
