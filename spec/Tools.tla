-------------------------------- MODULE Tools --------------------------------
(***************************************************************************)
(* The scripts around the command line tool.                               *)
(***************************************************************************)
EXTENDS Cli, Dpb

Join(q, sep) == FoldLeft(LAMBDA a, i : IF i = 1 THEN q[i] ELSE a \o sep \o q[i], "", OneTo(Len(q)))
\* without repetitions, first occurrences in order
Unique(q) == FoldLeft(LAMBDA a, x : IF \E i \in 1..Len(a) : a[i] = x THEN a ELSE Append(a, x), <<>>, q)
Collect(q, f(_)) == FoldLeft(LAMBDA a, x : a \o f(x), <<>>, q)
TwoDigits(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)

(***************************************************************************)
(* h264nal-split.py: an Annex B file is cut in front of every SPS whose    *)
(* resolution differs from that of the SPS before it; the pieces are       *)
(* numbered files that joined give the file.  Nothing is written when      *)
(* there is no such SPS, nor for a file that does not parse.               *)
(***************************************************************************)
SpsOf(r) == IF r.kind = "sps" THEN r.f ELSE Unprefixed(r.f, SubPrefix)
SplitPoints(b) ==
  LET ix == AnnexB(b)
      units == ParseAnnexB(b, EmptyStore).units
      startOf(off) == ix[CHOOSE i \in 1..Len(ix) : ix[i].payload = off].start
      step(a, u) ==
        IF ~(u.r.kind = "sps" /\ u.r.parsed) THEN a
        ELSE LET wh == <<OutWidth(u.r.f), OutHeight(u.r.f)>>
             IN  [last |-> wh,
                  cuts |-> IF a.last # <<>> /\ a.last # wh THEN Append(a.cuts, startOf(u.off)) ELSE a.cuts]
  IN  FoldLeft(step, [last |-> <<>>, cuts |-> <<>>], units).cuts
\* names and contents of the files
SplitFiles(b, base, ext) ==
  LET cuts == SplitPoints(b)
      at == <<0>> \o cuts \o <<Len(b)>>
  IN  IF cuts = <<>> THEN <<>>
      ELSE [i \in 1..(Len(cuts) + 1) |->
              [name |-> base \o "." \o TwoDigits(i) \o ext, d |-> SubSeq(b, at[i] + 1, at[i + 1])]]

(***************************************************************************)
(* h264nal-conformance.py: a row per file.                                 *)
(***************************************************************************)
\* A.3.1, A.3.2
LevelText(f) ==
  LET p == G(f, "profile_idc")  v == G(f, "level_idc")
      high == p \in {44, 100, 110, 122, 244}
  IN  IF (high /\ v = 9) \/ (~high /\ v = 11 /\ G(f, "constraint_set3_flag") = 1) THEN "1b"
      ELSE ToString(v \div 10) \o "." \o ToString(v % 10)
\* repeated messages are counted
Messages(err) ==
  LET u == Unique(err)
      times(x) == Len(SelectSeq(err, LAMBDA y : y = x))
  IN  Join([i \in 1..Len(u) |-> IF times(u[i]) = 1 THEN u[i] ELSE u[i] \o " (x" \o ToString(times(u[i])) \o ")"], "; ")
StatusText(rc, err) ==
  LET why == CASE rc = 0 -> ""
               [] rc = 1 -> "h264nal: invalid bitstream"
               [] rc = 2 -> "h264nal: unimplemented syntax"
               [] OTHER  -> "h264nal exited with " \o ToString(rc)
      m == Messages(err)
  IN  IF rc = 0 THEN IF err = <<>> THEN "0" ELSE m
      ELSE IF err = <<>> THEN why ELSE why \o "; " \o m
Row(b, rc, err) ==
  LET units == IF rc > 2 THEN <<>> ELSE ParseAnnexB(b, EmptyStore).units
      sets == SelectSeq(units, LAMBDA u : u.r.parsed /\ u.r.kind \in {"sps", "subset"})
      text(g(_)) == Join(Unique([i \in 1..Len(sets) |-> g(SpsOf(sets[i].r))]), ";")
      slices == Len(SelectSeq(units, LAMBDA u : G(u.r.h, "nal_unit_type") \in {1, 5, 20}))
      heads == Len(SelectSeq(units, LAMBDA u : u.r.parsed /\ u.r.kind \in {"slice", "shise"}))
  IN  [resolution |-> text(LAMBDA f : ToString(OutWidth(f)) \o "x" \o ToString(OutHeight(f))),
       profile |-> text(ProfileType), level |-> text(LevelText),
       number_of_nalus |-> ToString(Len(units)),
       number_of_slice_nalus |-> ToString(slices),
       number_of_slice_header_nalus |-> ToString(heads),
       h264nal_status |-> StatusText(rc, err),
       slice_header_status |-> IF heads = slices THEN "0"
                               ELSE "unparsed slice headers: " \o ToString(heads) \o "/" \o ToString(slices)]

(***************************************************************************)
(* h264nal-dpb_parse.py: the pictures of a stream, by their first slice.   *)
(***************************************************************************)
ListOf(f, nm) == IF nm \in DOMAIN f THEN f[nm] ELSE <<>>
\* the k-th entry of a list, counting the elements of kinds that consume one
CountOf(kinds, ks, i) == Len(SelectSeq(SubSeq(ks, 1, i), LAMBDA k : k \in kinds))
Nth(f, nm, kinds, ks, i) == IF ks[i] \in kinds THEN ListOf(f, nm)[CountOf(kinds, ks, i)] ELSE 0
PicOf(u) ==
  LET f == u.r.f
      d == "dec_ref_pic_marking."   m == "ref_pic_list_modification."
      ops == ListOf(f, d \o "memory_management_control_operation")
      all == ListOf(f, m \o "modification_of_pic_nums_idc")
      n == IF G(f, m \o "ref_pic_list_modification_flag_l0") = 0 THEN 0
           ELSE CHOOSE i \in 1..Len(all) : all[i] = 3 /\ \A j \in 1..(i - 1) : all[j] # 3
      ids == SubSeq(all, 1, n)
  IN  [idr |-> G(u.r.h, "nal_unit_type") = 5, type |-> G(f, "slice_type"), fn |-> G(f, "frame_num"),
       ref |-> G(u.r.h, "nal_ref_idc"), lt |-> G(f, d \o "long_term_reference_flag") = 1,
       ops |-> [i \in 1..Len(ops) |->
                  [op |-> ops[i], d |-> Nth(f, d \o "difference_of_pic_nums_minus1", {1, 3}, ops, i),
                   pn |-> Nth(f, d \o "long_term_pic_num", {2}, ops, i),
                   idx |-> Nth(f, d \o "long_term_frame_idx", {3, 6}, ops, i),
                   max |-> Nth(f, d \o "max_long_term_frame_idx_plus1", {4}, ops, i)]],
       mod |-> [i \in 1..n |->
                  [idc |-> ids[i], v |-> IF ids[i] = 2 THEN Nth(f, m \o "long_term_pic_num", {2}, ids, i)
                                         ELSE Nth(f, m \o "abs_diff_pic_num_minus1", {0, 1}, ids, i)]],
       active |-> G(f, "num_ref_idx_l0_active_minus1") + 1]
IsFirstSlice(u) == u.r.kind = "slice" /\ u.r.parsed /\ G(u.r.f, "first_mb_in_slice") = 0
\* [pics, M, max]; the list is built up for TLC's sake: [i \in .. |-> ..] would
\* be evaluated again at every use
PicturesOf(b) ==
  FoldLeft(LAMBDA a, u : IF u.r.kind = "sps" /\ u.r.parsed
                         THEN [a EXCEPT !.M = P2(G(u.r.f, "log2_max_frame_num_minus4") + 4),
                                        !.max = G(u.r.f, "max_num_ref_frames")]
                         ELSE IF IsFirstSlice(u) THEN [a EXCEPT !.pics = Append(@, PicOf(u))] ELSE a,
           [pics |-> <<>>, M |-> 0, max |-> 0], ParseAnnexB(b, EmptyStore).units)
DpbRows(b) == LET x == PicturesOf(b) IN Rows(x.pics, x.M, x.max)
=============================================================================
