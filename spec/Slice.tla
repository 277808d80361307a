-------------------------------- MODULE Slice --------------------------------
(***************************************************************************)
(* 7.3.3 slice_header() and the structures it shares with the SVC slice    *)
(* header of Annex F: ref_pic_list_modification(), pred_weight_table(),    *)
(* dec_ref_pic_marking().                                                  *)
(*                                                                         *)
(* st = [sps, pps, sub] are the parameter sets received so far, functions  *)
(* from identifier to field record.                                        *)
(***************************************************************************)
EXTENDS Pps

IsP(t)  == t % 5 = 0
IsB(t)  == t % 5 = 1
IsI(t)  == t % 5 = 2
IsSP(t) == t % 5 = 3
IsSI(t) == t % 5 = 4

Copy(s, rec, nm) == Def(s, nm, G(rec, nm))
CopyAll(s, rec, names) == FoldLeft(LAMBDA c, nm : Copy(c, rec, nm), s, names)

(***************************************************************************)
(* 7.3.3.1 ref_pic_list_modification()                                     *)
(***************************************************************************)
RECURSIVE RplmLoop(_)
RplmLoop(s) ==
  LET a == s ++ VUE("modification_of_pic_nums_idc", 3)
  IN  IF ~a.ok THEN a
      ELSE LET k == VecLast(a, "modification_of_pic_nums_idc")
           IN  CASE k \in {0, 1} -> RplmLoop(a ++ VUEany("abs_diff_pic_num_minus1"))
                 [] k = 2        -> RplmLoop(a ++ VUEany("long_term_pic_num"))
                 [] OTHER        -> a
RefPicListModification(s0, slice_type) ==
  LET a == Def(Within(s0, "ref_pic_list_modification"), "slice_type", slice_type)
      b == IF ~IsI(slice_type) /\ ~IsSI(slice_type)
           THEN LET x == a ++ FU("ref_pic_list_modification_flag_l0", 1)
                IN  IF V(x, "ref_pic_list_modification_flag_l0") = 1 /\ x.ok THEN RplmLoop(x) ELSE x
           ELSE a
      c == IF IsB(slice_type)
           THEN LET x == b ++ FU("ref_pic_list_modification_flag_l1", 1)
                IN  IF V(x, "ref_pic_list_modification_flag_l1") = 1 /\ x.ok THEN RplmLoop(x) ELSE x
           ELSE b
  IN  Back(c, s0)

(***************************************************************************)
(* 7.3.3.2 pred_weight_table().  A weight is present only where its flag   *)
(* is set, so the weight vectors are the present ones in order.            *)
(***************************************************************************)
PwtList(s, n, cat, lf, lw, lo, cf, cw, co) ==
  Repeat(s, n, LAMBDA x, i :
    LET a == x ++ VU(lf, 1)
        b == IF a.ok /\ VecLast(a, lf) = 1 THEN a ++ VSEany(lw) ++ VSEany(lo) ELSE a
        c == IF cat # 0 THEN b ++ VU(cf, 1) ELSE b
    IN  IF c.ok /\ cat # 0 /\ VecLast(c, cf) = 1
        THEN c ++ VSEany(cw) ++ VSEany(co) ++ VSEany(cw) ++ VSEany(co)
        ELSE c)
PredWeightTable(s0, cat, slice_type, n0, n1) ==
  LET a == Def(Def(Def(Def(Within(s0, "pred_weight_table"), "chroma_array_type", cat),
                       "slice_type", slice_type),
                   "num_ref_idx_l0_active_minus1", n0),
               "num_ref_idx_l1_active_minus1", n1)
      b == a ++ FUE("luma_log2_weight_denom", 7)
      c == IF cat # 0 THEN b ++ FUE("chroma_log2_weight_denom", 7) ELSE b
      d == PwtList(c, n0 + 1, cat, "luma_weight_l0_flag", "luma_weight_l0", "luma_offset_l0",
                   "chroma_weight_l0_flag", "chroma_weight_l0", "chroma_offset_l0")
      e == IF IsB(slice_type)
           THEN PwtList(d, n1 + 1, cat, "luma_weight_l1_flag", "luma_weight_l1", "luma_offset_l1",
                        "chroma_weight_l1_flag", "chroma_weight_l1", "chroma_offset_l1")
           ELSE d
  IN  Back(e, s0)

(***************************************************************************)
(* 7.3.3.3 dec_ref_pic_marking()                                           *)
(***************************************************************************)
RECURSIVE MmcoLoop(_)
MmcoLoop(s) ==
  LET a == s ++ VUE("memory_management_control_operation", 6)
  IN  IF ~a.ok THEN a
      ELSE LET k == VecLast(a, "memory_management_control_operation")
               b == IF k \in {1, 3} THEN a ++ VUEany("difference_of_pic_nums_minus1") ELSE a
               c == IF k = 2 THEN b ++ VUEany("long_term_pic_num") ELSE b
               d == IF k \in {3, 6} THEN c ++ VUEany("long_term_frame_idx") ELSE c
               e == IF k = 4 THEN d ++ VUEany("max_long_term_frame_idx_plus1") ELSE d
           IN  IF k = 0 \/ ~e.ok THEN e ELSE MmcoLoop(e)
DecRefPicMarking(s0, idr) ==
  LET a == Def(Within(s0, "dec_ref_pic_marking"), "IdrPicFlag", idr)
      b == IF idr = 1
           THEN a ++ FU("no_output_of_prior_pics_flag", 1) ++ FU("long_term_reference_flag", 1)
           ELSE LET x == a ++ FU("adaptive_ref_pic_marking_mode_flag", 1)
                IN  IF x.ok /\ V(x, "adaptive_ref_pic_marking_mode_flag") = 1
                    THEN MmcoLoop(x) ELSE x
  IN  Back(b, s0)

(***************************************************************************)
(* slice_group_change_cycle is u(v), v = Ceil(Log2(PicSizeInMapUnits       *)
(* / SliceGroupChangeRate + 1)): the least v with (2^v - 1) * rate >= size *)
(***************************************************************************)
CycleWidth(size, rateM1) ==
  IF rateM1 < 0 \/ rateM1 >= size - 1 THEN 1
  ELSE CHOOSE v \in 1..24 : /\ (P2(v) - 1) >= (size + rateM1) \div (rateM1 + 1)
                            /\ (P2(v - 1) - 1) < (size + rateM1) \div (rateM1 + 1)

CycleElement(s, sps, pps) ==
  IF G(pps, "num_slice_groups_minus1") > 0 /\ G(pps, "slice_group_map_type") \in 3..5
  THEN LET a == Copy(Copy(Copy(s, sps, "pic_width_in_mbs_minus1"),
                          sps, "pic_height_in_map_units_minus1"),
                     pps, "slice_group_change_rate_minus1")
       IN  a ++ FU("slice_group_change_cycle",
                   CycleWidth((G(sps, "pic_width_in_mbs_minus1") + 1)
                                * (G(sps, "pic_height_in_map_units_minus1") + 1),
                              G(pps, "slice_group_change_rate_minus1")))
  ELSE s

(***************************************************************************)
(* The elements both slice headers start with, after the parameter sets    *)
(* have been resolved, up to redundant_pic_cnt.                            *)
(***************************************************************************)
SliceFront(s0, sps, pps, idr) ==
  LET a == IF G(sps, "separate_colour_plane_flag") = 1
           THEN s0 ++ FU("colour_plane_id", 2) ELSE s0
      b == a ++ FU("frame_num", G(sps, "log2_max_frame_num_minus4") + 4)
      c == IF G(sps, "frame_mbs_only_flag") = 0
           THEN LET x == b ++ FU("field_pic_flag", 1)
                IN  IF V(x, "field_pic_flag") = 1 THEN x ++ FU("bottom_field_flag", 1) ELSE x
           ELSE b
      d == IF idr = 1 THEN c ++ FUE("idr_pic_id", 65535) ELSE c
      two == G(pps, "bottom_field_pic_order_in_frame_present_flag") = 1
             /\ V(d, "field_pic_flag") = 0
      poc == G(sps, "pic_order_cnt_type")
      e == IF poc = 0
           THEN LET x == d ++ FU("pic_order_cnt_lsb", G(sps, "log2_max_pic_order_cnt_lsb_minus4") + 4)
                IN  IF two THEN x ++ FSEany("delta_pic_order_cnt_bottom") ELSE x
           ELSE IF poc = 1 /\ G(sps, "delta_pic_order_always_zero_flag") = 0
           THEN LET x == d ++ VSEany("delta_pic_order_cnt")
                IN  IF two THEN x ++ VSEany("delta_pic_order_cnt") ELSE x
           ELSE d
  IN  IF G(pps, "redundant_pic_cnt_present_flag") = 1
      THEN e ++ FUE("redundant_pic_cnt", 127) ELSE e

\* num_ref_idx_active_override_flag and what it governs.  Without an override
\* the PPS defaults apply.
RefIdxActive(s, pps, b) ==
  LET x == s ++ FU("num_ref_idx_active_override_flag", 1)
  IN  IF V(x, "num_ref_idx_active_override_flag") = 1
      THEN LET y == x ++ FUE("num_ref_idx_l0_active_minus1", 31)
           IN  IF b THEN y ++ FUE("num_ref_idx_l1_active_minus1", 31) ELSE y
      ELSE Def(Def(x, "num_ref_idx_l0_active_minus1",
                   G(pps, "num_ref_idx_l0_default_active_minus1")),
               "num_ref_idx_l1_active_minus1",
               G(pps, "num_ref_idx_l1_default_active_minus1"))

SpsContext == <<"separate_colour_plane_flag", "log2_max_frame_num_minus4",
                "frame_mbs_only_flag", "pic_order_cnt_type",
                "delta_pic_order_always_zero_flag">>
PpsContext == <<"bottom_field_pic_order_in_frame_present_flag",
                "redundant_pic_cnt_present_flag", "weighted_pred_flag",
                "weighted_bipred_idc", "entropy_coding_mode_flag",
                "deblocking_filter_control_present_flag", "num_slice_groups_minus1",
                "slice_group_map_type">>

Deblock(s, pps, hi) ==
  IF G(pps, "deblocking_filter_control_present_flag") = 1
  THEN LET x == s ++ FUE("disable_deblocking_filter_idc", hi)
       IN  IF V(x, "disable_deblocking_filter_idc") # 1
           THEN x ++ FSEany("slice_alpha_c0_offset_div2") ++ FSEany("slice_beta_offset_div2")
           ELSE x
  ELSE s

(***************************************************************************)
(* 7.3.3 slice_header()                                                    *)
(***************************************************************************)
SliceHeader(s0, refIdc, nalType, st) ==
  LET a == Def(Def(s0, "nal_ref_idc", refIdc), "nal_unit_type", nalType)
             ++ FUE("first_mb_in_slice", MaxMbPicSize - 1) ++ FUE("slice_type", 9)
             ++ FUE("pic_parameter_set_id", 255)
      ppsId == V(a, "pic_parameter_set_id")
  IN IF ~a.ok \/ ppsId \notin DOMAIN st.pps THEN Fail(a)
     ELSE LET pps == st.pps[ppsId]
              spsId == G(pps, "seq_parameter_set_id")
          IN IF spsId \notin DOMAIN st.sps THEN Fail(a)
  ELSE
  LET sps == st.sps[spsId]
      t == V(a, "slice_type")
      idr == IF nalType = 5 THEN 1 ELSE 0
      b == SliceFront(a, sps, pps, idr)
      c == IF IsB(t) THEN b ++ FU("direct_spatial_mv_pred_flag", 1) ELSE b
      d == IF IsP(t) \/ IsSP(t) \/ IsB(t) THEN RefIdxActive(c, pps, IsB(t)) ELSE c
      e == IF nalType \in {20, 21} THEN Unimplemented(d)   \* ref_pic_list_mvc_modification()
           ELSE RefPicListModification(d, t)
      f == IF (G(pps, "weighted_pred_flag") = 1 /\ (IsP(t) \/ IsSP(t)))
              \/ (G(pps, "weighted_bipred_idc") = 1 /\ IsB(t))
           THEN PredWeightTable(e, ChromaArrayType(sps), t,
                                V(e, "num_ref_idx_l0_active_minus1"),
                                V(e, "num_ref_idx_l1_active_minus1"))
           ELSE e
      g == IF refIdc # 0 THEN DecRefPicMarking(f, idr) ELSE f
      h == IF G(pps, "entropy_coding_mode_flag") = 1 /\ ~IsI(t) /\ ~IsSI(t)
           THEN g ++ FUE("cabac_init_idc", 2) ELSE g
      qr == 51 + 6 * G(sps, "bit_depth_luma_minus8")
      i == h ++ FSE("slice_qp_delta", -qr, qr)
      j == IF IsSP(t) THEN i ++ FU("sp_for_switch_flag", 1) ELSE i
      k == IF IsSP(t) \/ IsSI(t) THEN j ++ FSEany("slice_qs_delta") ELSE j
      l == Deblock(k, pps, 2)
  IN  CopyAll(CopyAll(CycleElement(l, sps, pps), sps, SpsContext), pps, PpsContext)
=============================================================================
