--------------------------------- MODULE Svc ---------------------------------
(***************************************************************************)
(* NAL unit header (7.3.1) with its SVC extension, and the Annex F (SVC)   *)
(* structures: prefix NAL unit, subset SPS, slice header in scalable       *)
(* extension.                                                              *)
(***************************************************************************)
EXTENDS Slice

(***************************************************************************)
(* nal_unit_header().  The MVC and 3D-AVC extensions are not implemented:  *)
(* such a header is reported and rejected.                                 *)
(***************************************************************************)
SvcHeaderExt(s) ==
  s ++ FU("idr_flag", 1) ++ FU("priority_id", 6)
    ++ FU("no_inter_layer_pred_flag", 1) ++ FU("dependency_id", 3)
    ++ FU("quality_id", 4) ++ FU("temporal_id", 3)
    ++ FU("use_ref_base_pic_flag", 1) ++ FU("discardable_flag", 1)
    ++ FU("output_flag", 1) ++ FU("reserved_three_2bits", 2)
NalHeader(s0) ==
  LET a == s0 ++ FU("forbidden_zero_bit", 1) ++ FU("nal_ref_idc", 2) ++ FU("nal_unit_type", 5)
      t == V(a, "nal_unit_type")
      b == CASE t \in {14, 20} -> a ++ FU("svc_extension_flag", 1)
             [] t = 21         -> a ++ FU("avc_3d_extension_flag", 1)
             [] OTHER          -> a
  IN  IF ~b.ok \/ t \notin {14, 20, 21} THEN b
      ELSE IF V(b, "svc_extension_flag") = 1
      THEN Back(SvcHeaderExt(Within(b, "nal_unit_header_svc_extension")), b)
      ELSE Unimplemented(b)
Ext(h, nm) == G(h, "nal_unit_header_svc_extension." \o nm)

(***************************************************************************)
(* A flag that is read while there is RBSP data; the last one is kept.     *)
(***************************************************************************)
RECURSIVE FlagsWhileMore(_, _)
FlagsWhileMore(s, nm) ==
  IF ~s.ok THEN s
  ELSE IF s.m = "d"
  THEN \* every bit before the stop bit
       LET RECURSIVE LastOne(_)
           LastOne(p) == IF BitAt(s.b, p) = 1 THEN p ELSE LastOne(p - 1)
           anyOne == ZeroRun(s.b, s.p, s.n - s.p) < s.n - s.p
           stop == IF anyOne THEN LastOne(s.n - 1) ELSE s.n
       IN  IF ~MoreRbsp(s.b, s.p, s.n) THEN s
           ELSE Def([s EXCEPT !.p = stop], nm, BitAt(s.b, stop - 1))
  ELSE LET m == More(s) IN IF m.yes THEN FlagsWhileMore(m.s ++ FU(nm, 1), nm) ELSE m.s

(***************************************************************************)
(* F.7.3.2.12.1 prefix_nal_unit_rbsp(), for a header h with SVC extension. *)
(***************************************************************************)
PrefixContext == <<"nal_ref_idc", "use_ref_base_pic_flag", "idr_flag">>
PrefixSvc(s0, ref, use, idr) ==
  LET a == Def(Def(Def(s0, "nal_ref_idc", ref), "use_ref_base_pic_flag", use), "idr_flag", idr)
  IN  IF ref # 0
      THEN LET b == a ++ FU("store_ref_base_pic_flag", 1)
               c == IF b.ok /\ (use = 1 \/ V(b, "store_ref_base_pic_flag") = 1) /\ idr = 0
                    THEN Unimplemented(b)                \* dec_ref_base_pic_marking()
                    ELSE b ++ FU("additional_prefix_nal_unit_extension_flag", 1)
               d == IF V(c, "additional_prefix_nal_unit_extension_flag") = 1
                    THEN FlagsWhileMore(c, "additional_prefix_nal_unit_extension_data_flag")
                    ELSE c
           IN  Trailing(d)
      ELSE LET m == More(a)
           IN  IF ~m.yes THEN m.s
               ELSE Trailing(FlagsWhileMore(m.s, "additional_prefix_nal_unit_extension_data_flag"))
PrefixNal(s0, h) ==
  LET ref == G(h, "nal_ref_idc")
      use == Ext(h, "use_ref_base_pic_flag")
      idr == Ext(h, "idr_flag")
      a == Def(Def(Def(Def(s0, "svc_extension_flag", 1), "nal_ref_idc", ref),
                   "use_ref_base_pic_flag", use), "idr_flag", idr)
  IN  Back(PrefixSvc(Within(a, "prefix_nal_unit_svc"), ref, use, idr), a)

(***************************************************************************)
(* F.7.3.2.1.4 seq_parameter_set_svc_extension()                           *)
(***************************************************************************)
SpsSvcExt(s0, cat) ==
  LET a == Def(s0, "ChromaArrayType", cat)
              ++ FU("inter_layer_deblocking_filter_control_present_flag", 1)
              ++ FU("extended_spatial_scalability_idc", 2)
      b == IF cat \in {1, 2} THEN a ++ FU("chroma_phase_x_plus1_flag", 1) ELSE a
      c == IF cat = 1 THEN b ++ FU("chroma_phase_y_plus1", 2) ELSE b
      d == IF V(c, "extended_spatial_scalability_idc") = 1
           THEN LET x == IF cat > 0
                         THEN c ++ FU("seq_ref_layer_chroma_phase_x_plus1_flag", 1)
                                ++ FU("seq_ref_layer_chroma_phase_y_plus1", 2)
                         ELSE c
                IN  x ++ FSEany("seq_scaled_ref_layer_left_offset")
                      ++ FSEany("seq_scaled_ref_layer_top_offset")
                      ++ FSEany("seq_scaled_ref_layer_right_offset")
                      ++ FSEany("seq_scaled_ref_layer_bottom_offset")
           ELSE c
      e == d ++ FU("seq_tcoeff_level_prediction_flag", 1)
      f == IF V(e, "seq_tcoeff_level_prediction_flag") = 1
           THEN e ++ FU("adaptive_tcoeff_level_prediction_flag", 1) ELSE e
  IN  f ++ FU("slice_header_restriction_flag", 1)

(***************************************************************************)
(* 7.3.2.1.3 subset_seq_parameter_set_rbsp().                              *)
(* DEVIATION (known finding KF-1): the bodies of the svc/mvc VUI and of    *)
(* the MVC, MVCD and 3D-AVC extensions are skipped without being reported  *)
(* as unimplemented.                                                       *)
(***************************************************************************)
SubsetSps(s0) ==
  LET a == Back(SpsData(Within(s0, "seq_parameter_set_data")), s0)
  IN  IF ~a.ok THEN a ELSE
  LET w == Within(a, "seq_parameter_set_data")
      p == V(w, "profile_idc")
      b == CASE p \in {83, 86} ->
                  Back(SpsSvcExt(Within(a, "seq_parameter_set_svc_extension"),
                                 ChromaArrayType(Strip(w))), a)
                    ++ FU("svc_vui_parameters_present_flag", 1)
             [] p \in {118, 128, 134} ->
                  a ++ FU("bit_equal_to_one", 1) ++ FU("mvc_vui_parameters_present_flag", 1)
             [] p \in {138, 135, 139} -> a ++ FU("bit_equal_to_one", 1)
             [] OTHER -> a
      c == b ++ FU("additional_extension2_flag", 1)
      d == IF V(c, "additional_extension2_flag") = 1
           THEN FlagsWhileMore(c, "additional_extension2_data_flag") ELSE c
  IN  Trailing(d)
HasSvcExt(sub) == "seq_parameter_set_svc_extension.ChromaArrayType" \in DOMAIN sub

(***************************************************************************)
(* F.7.3.3.4 slice_header_in_scalable_extension()                          *)
(***************************************************************************)
SubField(sub) == [nm \in {"separate_colour_plane_flag", "log2_max_frame_num_minus4",
    "frame_mbs_only_flag", "pic_order_cnt_type", "delta_pic_order_always_zero_flag",
    "log2_max_pic_order_cnt_lsb_minus4", "chroma_format_idc",
    "pic_width_in_mbs_minus1", "pic_height_in_map_units_minus1"} |->
       G(sub, "seq_parameter_set_data." \o nm)]
SvcField(sub) == [nm \in {"inter_layer_deblocking_filter_control_present_flag",
    "extended_spatial_scalability_idc", "adaptive_tcoeff_level_prediction_flag",
    "slice_header_restriction_flag"} |->
       G(sub, "seq_parameter_set_svc_extension." \o nm)]

ShiseQualityZero(s, pps, sps, svc, h) ==
  LET t == V(s, "slice_type")
      noInter == Ext(h, "no_inter_layer_pred_flag") = 1
      idr == Ext(h, "idr_flag")
      EP == t \in {0, 5}
      EB == t \in {1, 6}
      c == IF EB THEN s ++ FU("direct_spatial_mv_pred_flag", 1) ELSE s
      d == IF EP \/ EB THEN RefIdxActive(c, pps, EB) ELSE c
      e == RefPicListModification(d, t)
      f == IF (G(pps, "weighted_pred_flag") = 1 /\ EP)
              \/ (G(pps, "weighted_bipred_idc") = 1 /\ EB)
           THEN LET x == IF noInter THEN e ELSE e ++ FU("base_pred_weight_table_flag", 1)
                IN  IF noInter \/ V(x, "base_pred_weight_table_flag") = 0
                    THEN PredWeightTable(x, ChromaArrayType(sps), t,
                                         V(x, "num_ref_idx_l0_active_minus1"),
                                         V(x, "num_ref_idx_l1_active_minus1"))
                    ELSE x
           ELSE e
  IN  IF G(h, "nal_ref_idc") = 0 THEN f
      ELSE LET g == DecRefPicMarking(f, idr)
           IN  IF svc.slice_header_restriction_flag = 1 THEN g
               ELSE LET k == g ++ FU("store_ref_base_pic_flag", 1)
                    IN  IF k.ok /\ idr = 0
                           /\ (Ext(h, "use_ref_base_pic_flag") = 1
                               \/ V(k, "store_ref_base_pic_flag") = 1)
                        THEN Unimplemented(k)            \* dec_ref_base_pic_marking()
                        ELSE k

ShiseInterLayer(s, sps, svc, quality) ==
  LET a == IF quality # 0 THEN s
           ELSE
           LET x == s ++ FUEany("ref_layer_dq_id")
               y == IF svc.inter_layer_deblocking_filter_control_present_flag = 1
                    THEN LET z == x ++ FUEany("disable_inter_layer_deblocking_filter_idc")
                         IN  IF V(z, "disable_inter_layer_deblocking_filter_idc") # 1
                             THEN z ++ FSEany("inter_layer_slice_alpha_c0_offset_div2")
                                    ++ FSEany("inter_layer_slice_beta_offset_div2")
                             ELSE z
                    ELSE x
               w == y ++ FU("constrained_intra_resampling_flag", 1)
           IN  IF svc.extended_spatial_scalability_idc = 2
               THEN LET q == IF ChromaArrayType(sps) > 0
                             THEN w ++ FU("ref_layer_chroma_phase_x_plus1_flag", 1)
                                    ++ FU("ref_layer_chroma_phase_y_plus1", 2)
                             ELSE w
                    IN  q ++ FSEany("scaled_ref_layer_left_offset")
                          ++ FSEany("scaled_ref_layer_top_offset")
                          ++ FSEany("scaled_ref_layer_right_offset")
                          ++ FSEany("scaled_ref_layer_bottom_offset")
               ELSE w
      b == a ++ FU("slice_skip_flag", 1)
      c == IF V(b, "slice_skip_flag") = 1 THEN b ++ FUEany("num_mbs_in_slice_minus1")
           ELSE
           LET x == b ++ FU("adaptive_base_mode_flag", 1)
               y == IF V(x, "adaptive_base_mode_flag") = 0
                    THEN x ++ FU("default_base_mode_flag", 1) ELSE x
               z == IF V(y, "default_base_mode_flag") = 0
                    THEN LET q == y ++ FU("adaptive_motion_prediction_flag", 1)
                         IN  IF V(q, "adaptive_motion_prediction_flag") = 0
                             THEN q ++ FU("default_motion_prediction_flag", 1) ELSE q
                    ELSE y
               w == z ++ FU("adaptive_residual_prediction_flag", 1)
           IN  IF V(w, "adaptive_residual_prediction_flag") = 0
               THEN w ++ FU("default_residual_prediction_flag", 1) ELSE w
  IN  IF svc.adaptive_tcoeff_level_prediction_flag = 1
      THEN c ++ FU("tcoeff_level_prediction_flag", 1) ELSE c

Shise(s0, h, st) ==
  LET a == Def(Def(s0, "nal_ref_idc", G(h, "nal_ref_idc")),
               "nal_unit_type", G(h, "nal_unit_type"))
             ++ FUE("first_mb_in_slice", MaxMbPicSize - 1) ++ FUE("slice_type", 9)
             ++ FUE("pic_parameter_set_id", 255)
      ppsId == V(a, "pic_parameter_set_id")
  IN IF ~a.ok \/ ppsId \notin DOMAIN st.pps THEN Fail(a)
     ELSE LET pps == st.pps[ppsId]
              subId == G(pps, "seq_parameter_set_id")
          IN IF subId \notin DOMAIN st.sub THEN Fail(a)
             ELSE IF ~HasSvcExt(st.sub[subId]) THEN Fail(a)
  ELSE
  LET sub == st.sub[subId]
      sps == SubField(sub)
      svc == SvcField(sub)
      t == V(a, "slice_type")
      noInter == Ext(h, "no_inter_layer_pred_flag")
      quality == Ext(h, "quality_id")
      b == SliceFront(a, sps, pps, Ext(h, "idr_flag"))
      c == IF quality = 0 THEN ShiseQualityZero(b, pps, sps, svc, h) ELSE b
      d == IF G(pps, "entropy_coding_mode_flag") = 1 /\ t \notin {2, 7}
           THEN c ++ FUE("cabac_init_idc", 2) ELSE c
      e == Deblock(d ++ FSEany("slice_qp_delta"), pps, 6)
      f == CycleElement(e, sps, pps)
      g == IF noInter = 0 THEN ShiseInterLayer(f, sps, svc, quality) ELSE f
      i == IF svc.slice_header_restriction_flag = 0 /\ V(g, "slice_skip_flag") = 0
           THEN g ++ FU("scan_idx_start", 4) ++ FU("scan_idx_end", 4) ELSE g
      j == CopyAll(CopyAll(CopyAll(i, sps, SpsContext), pps, PpsContext), svc,
                   <<"inter_layer_deblocking_filter_control_present_flag",
                     "extended_spatial_scalability_idc",
                     "adaptive_tcoeff_level_prediction_flag",
                     "slice_header_restriction_flag">>)
  IN  Def(Def(Def(Def(Def(j, "ChromaArrayType", ChromaArrayType(sps)),
                      "no_inter_layer_pred_flag", noInter), "quality_id", quality),
              "idr_flag", Ext(h, "idr_flag")),
          "use_ref_base_pic_flag", Ext(h, "use_ref_base_pic_flag"))

\* Copies of context that the code makes only on the paths that need them: a
\* recorded value may also be the default.
ContextNames ==
  {SpsContext[i] : i \in 1..Len(SpsContext)} \cup {PpsContext[i] : i \in 1..Len(PpsContext)}
  \cup {"ChromaArrayType", "no_inter_layer_pred_flag", "quality_id", "idr_flag",
        "use_ref_base_pic_flag", "inter_layer_deblocking_filter_control_present_flag",
        "extended_spatial_scalability_idc", "adaptive_tcoeff_level_prediction_flag",
        "slice_header_restriction_flag", "pic_width_in_mbs_minus1",
        "pic_height_in_map_units_minus1", "slice_group_change_rate_minus1"}
=============================================================================
