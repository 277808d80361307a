--------------------------------- MODULE Dpb ---------------------------------
(***************************************************************************)
(* Decoded reference picture marking (8.2.5) and reference list 0 of P     *)
(* pictures (8.2.4) for streams of frames, as h264nal-dpb_parse.py         *)
(* simulates them.                                                         *)
(*                                                                         *)
(* refs is the set of reference frames, [fn |-> frame_num, idx |-> the     *)
(* LongTermFrameIdx, -1 for a short-term one].  A picture is               *)
(*   [idr, type, fn, ref, lt, ops, mod, active]                            *)
(* ops: <<>> for sliding window, else the operations [op, d, pn, idx, max] *)
(* up to and including op 0; mod: the modifications of list 0, [idc, v].   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Shorts(refs) == {e \in refs : e.idx = -1}
Longs(refs) == {e \in refs : e.idx # -1}

\* (8-27), (8-28): for a frame PicNum is FrameNumWrap
PicNum(e, fn, M) == IF e.fn > fn THEN e.fn - M ELSE e.fn

Slots(max) == IF max > 1 THEN max ELSE 1

(***************************************************************************)
(* 8.2.5                                                                   *)
(***************************************************************************)
Sliding(refs, fn, M, max) ==
  IF Cardinality(refs) < Slots(max) \/ Shorts(refs) = {} THEN refs
  ELSE refs \ {CHOOSE e \in Shorts(refs) : \A x \in Shorts(refs) : PicNum(e, fn, M) <= PicNum(x, fn, M)}

\* one operation on a = [refs, fn, idx]: the frames, and the current picture
Operate(a, o, M) ==
  LET named == {e \in Shorts(a.refs) : PicNum(e, a.fn, M) = a.fn - (o.d + 1)}
      owner(i) == {e \in Longs(a.refs) : e.idx = i}
  IN  CASE o.op = 1 -> [a EXCEPT !.refs = @ \ named]
        [] o.op = 2 -> [a EXCEPT !.refs = @ \ owner(o.pn)]
        [] o.op = 3 -> [a EXCEPT !.refs = ((@ \ owner(o.idx)) \ named) \cup {[e EXCEPT !.idx = o.idx] : e \in named}]
        [] o.op = 4 -> [a EXCEPT !.refs = {e \in @ : e.idx < o.max}]
        [] o.op = 5 -> [refs |-> {}, fn |-> 0, idx |-> -1]
        [] o.op = 6 -> [a EXCEPT !.refs = @ \ owner(o.idx), !.idx = o.idx]
        [] OTHER    -> a

Mark(refs, p, M, max) ==
  IF p.idr THEN {[fn |-> p.fn, idx |-> IF p.lt THEN 0 ELSE -1]}
  ELSE IF p.ref = 0 THEN refs
  ELSE IF p.ops = <<>> THEN Sliding(refs, p.fn, M, max) \cup {[fn |-> p.fn, idx |-> -1]}
  ELSE LET a == FoldLeft(LAMBDA x, o : TLCEval(Operate(x, o, M)), [refs |-> refs, fn |-> p.fn, idx |-> -1], p.ops)
       IN  a.refs \cup {[fn |-> a.fn, idx |-> a.idx]}

(***************************************************************************)
(* 8.2.4: the first p.active entries of RefPicList0                        *)
(***************************************************************************)
InitialList(refs, fn, M) ==
  SetToSortSeq(Shorts(refs), LAMBDA x, y : PicNum(x, fn, M) > PicNum(y, fn, M))
  \o SetToSortSeq(Longs(refs), LAMBDA x, y : x.idx < y.idx)

\* (8-34), (8-35)
NextPicNum(pred, m, M) ==
  IF m.idc = 0 THEN IF pred - (m.v + 1) < 0 THEN pred - (m.v + 1) + M ELSE pred - (m.v + 1)
  ELSE IF pred + m.v + 1 >= M THEN pred + m.v + 1 - M ELSE pred + m.v + 1

Modify(a, m, fn, refs, M) ==
  LET pred == IF m.idc \in {0, 1} THEN NextPicNum(a.pred, m, M) ELSE a.pred
      num == IF pred > fn THEN pred - M ELSE pred
      found == IF m.idc \in {0, 1} THEN {e \in Shorts(refs) : PicNum(e, fn, M) = num}
               ELSE IF m.idc = 2 THEN {e \in Longs(refs) : e.idx = m.v} ELSE {}
      e == CHOOSE x \in found : TRUE
      other(x) == x # e
  IN  IF found = {} THEN [a EXCEPT !.pred = pred]
      ELSE [list |-> SubSeq(a.list, 1, a.at) \o <<e>> \o SelectSeq(SubSeq(a.list, a.at + 1, Len(a.list)), other),
            pred |-> pred, at |-> a.at + 1]

RefList0(refs, p, M) ==
  LET start == [list |-> InitialList(refs, p.fn, M), pred |-> p.fn, at |-> 0]
      all == FoldLeft(LAMBDA a, m : Modify(a, m, p.fn, refs, M), start, p.mod).list
  IN  SubSeq(all, 1, IF Len(all) < p.active THEN Len(all) ELSE p.active)

(***************************************************************************)
(* Text                                                                    *)
(***************************************************************************)
RefText(e) == "fn=" \o ToString(e.fn) \o (IF e.idx = -1 THEN "/STR" ELSE "/LTR[" \o ToString(e.idx) \o "]")
PicType(p) == IF p.idr THEN "IDR" ELSE <<"P", "B", "I", "SP", "SI">>[(p.type % 5) + 1]
\* the frame_num of the picture an operation names
Named(p, o, M) == ToString((p.fn - (o.d + 1) + M) % M)
OpText(p, o, M) ==
  CASE o.op = 1 -> "MMCO1:rm_STR(fn=" \o Named(p, o, M) \o ")"
    [] o.op = 2 -> "MMCO2:rm_LTR"
    [] o.op = 3 -> "MMCO3:STR(fn=" \o Named(p, o, M) \o ")->LTR[" \o ToString(o.idx) \o "]"
    [] o.op = 4 -> "MMCO4:max_ltr_idx=" \o ToString(o.max - 1)
    [] o.op = 5 -> "MMCO5:clear_all"
    [] o.op = 6 -> "MMCO6:self->LTR[" \o ToString(o.idx) \o "]"
MarkText(p, M) ==
  IF p.idr THEN <<IF p.lt THEN "IDR:LTR[0]" ELSE "IDR:STR">>
  ELSE IF p.ref = 0 THEN <<>>
  ELSE IF p.ops = <<>> THEN <<"sliding_window">>
  ELSE LET q == SelectSeq(p.ops, LAMBDA o : o.op # 0) IN [i \in 1..Len(q) |-> OpText(p, q[i], M)]

(***************************************************************************)
(* The table: one row per picture                                          *)
(***************************************************************************)
Rows(pics, M, max) ==
  LET step(a, p) ==
        LET before == IF p.idr THEN {} ELSE a.refs
            after == TLCEval(Mark(before, p, M, max))
            gop == a.gop + (IF p.idr /\ a.n > 0 THEN 1 ELSE 0)
            at == IF p.idr THEN 0 ELSE a.at
            list == IF p.type % 5 \in {0, 3} /\ ~p.idr THEN RefList0(before, p, M) ELSE <<>>
            row == [num |-> [i \in 1..5 |-> ToString(<<a.n, gop, at, p.fn, p.ref>>[i])], type |-> PicType(p),
                    used |-> IF p.ref # 0 THEN "Y" ELSE "N",
                    refs |-> [i \in 1..Len(list) |-> RefText(list[i])],
                    before |-> {RefText(e) : e \in before}, mmco |-> MarkText(p, M),
                    after |-> {RefText(e) : e \in after},
                    b |-> p.type % 5 = 1]
        IN  [refs |-> after, n |-> a.n + 1, gop |-> gop, at |-> at + 1, rows |-> Append(a.rows, TLCEval(row))]
  IN  FoldLeft(step, [refs |-> {}, n |-> 0, gop |-> 0, at |-> 0, rows |-> <<>>], pics).rows
=============================================================================
