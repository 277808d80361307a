-------------------------------- MODULE MCDpb --------------------------------
(***************************************************************************)
(* Streams of frames as 7.4.3 and 8.2.5 allow them, one picture per step.  *)
(* Explored exhaustively for the invariants; in simulation, the pictures   *)
(* of each behaviour are printed and become a stream (lib/plans.py).       *)
(***************************************************************************)
EXTENDS Dpb, Json, IOUtils

CONSTANTS M,          \* MaxFrameNum
          MaxRefs,    \* the values of max_num_ref_frames to try
          Idx,        \* the highest LongTermFrameIdx
          OpsLimit,   \* operations per picture
          ModLimit,   \* modifications per picture
          Depth       \* pictures per printed stream; 0: none is kept

VARIABLES refs, prev, top, max, last, hist
\* prev: frame_num of the reference picture before; top: MaxLongTermFrameIdx,
\* -1 for none; last: the picture just decoded
vars == <<refs, prev, top, max, last, hist>>

NoOp == [op |-> 0, d |-> 0, pn |-> 0, idx |-> 0, max |-> 0]

\* what operation may come next, given a = [refs, fn, idx, top, ops]
Allowed(a) ==
  LET has(k) == \E i \in 1..Len(a.ops) : a.ops[i].op = k
      diff(e) == (a.fn - PicNum(e, a.fn, M)) - 1
  IN  IF has(6) THEN {}
      ELSE (IF has(5) THEN {} ELSE
              {[NoOp EXCEPT !.op = 1, !.d = diff(e)] : e \in Shorts(a.refs)}
              \cup {[NoOp EXCEPT !.op = 3, !.d = diff(e), !.idx = i] : e \in Shorts(a.refs), i \in 0..a.top})
           \cup {[NoOp EXCEPT !.op = 2, !.pn = e.idx] : e \in Longs(a.refs)}
           \cup (IF has(4) THEN {} ELSE {[NoOp EXCEPT !.op = 4, !.max = i] : i \in 0..(Idx + 1)})
           \cup (IF has(1) \/ has(3) \/ has(5) THEN {} ELSE {[NoOp EXCEPT !.op = 5]})
           \cup {[NoOp EXCEPT !.op = 6, !.idx = i] : i \in 0..a.top}
Then(a, o) ==
  LET b == Operate([refs |-> a.refs, fn |-> a.fn, idx |-> a.idx], o, M)
  IN  [refs |-> b.refs, fn |-> b.fn, idx |-> b.idx,
       top |-> CASE o.op = 4 -> o.max - 1 [] o.op = 5 -> -1 [] OTHER -> a.top,
       ops |-> Append(a.ops, o)]
\* at most one frame may hold each index, and after the picture there may not
\* be more frames than max_num_ref_frames
Fits(a) == Cardinality(a.refs) + 1 <= Slots(max)
RECURSIVE Markings(_, _)
Markings(as, k) ==
  IF k = 0 THEN as ELSE as \cup Markings(UNION {{Then(a, o) : o \in Allowed(a)} : a \in as}, k - 1)
\* for simulation, one at random
RECURSIVE OneMarking(_, _)
OneMarking(a, k) ==
  IF Fits(a) /\ (k <= 0 \/ Allowed(a) = {} \/ RandomElement(1..3) = 1) THEN {a}
  ELSE IF k < -6 \/ Allowed(a) = {} THEN {}
  ELSE OneMarking(Then(a, RandomElement(Allowed(a))), k - 1)

Mods(fn) ==
  LET short == {[idc |-> i, v |-> v] : i \in {0, 1}, v \in 0..(M - 1)}
      long == {[idc |-> 2, v |-> e.idx] : e \in Longs(refs)}
      target(pred, m) == IF NextPicNum(pred, m, M) > fn THEN NextPicNum(pred, m, M) - M ELSE NextPicNum(pred, m, M)
      good(pred) == {m \in short : \E e \in Shorts(refs) : PicNum(e, fn, M) = target(pred, m)} \cup long
      end == <<[idc |-> 3, v |-> 0]>>
      grow(x) == IF good(x.pred) = {} THEN x
                 ELSE LET m == RandomElement(good(x.pred))
                      IN  [pred |-> IF m.idc = 2 THEN x.pred ELSE NextPicNum(x.pred, m, M), q |-> Append(x.q, m)]
  IN  IF ModLimit = 0 \/ refs = {} THEN {<<>>}
      ELSE {<<>>, FoldLeft(LAMBDA x, i : grow(x), [pred |-> fn, q |-> <<>>],
                           [i \in 1..RandomElement(1..ModLimit) |-> i]).q \o end}

Keep(p) == IF Depth = 0 THEN hist' = hist ELSE hist' = Append(hist, p)
Decode(p, t) ==
  /\ refs' = Mark(refs, p, M, max)
  /\ prev' = IF p.idr \/ (\E i \in 1..Len(p.ops) : p.ops[i].op = 5) THEN 0 ELSE IF p.ref # 0 THEN p.fn ELSE prev
  /\ top' = t
  /\ last' = p
  /\ Keep(p)
  /\ UNCHANGED max

Pic == [idr |-> FALSE, type |-> 0, fn |-> 0, ref |-> 1, lt |-> FALSE, ops |-> <<>>, mod |-> <<>>, active |-> 1]
Idr(r, lt, t) == Decode([Pic EXCEPT !.idr = TRUE, !.ref = r, !.lt = lt, !.type = t], IF lt THEN 0 ELSE -1)
Now == (prev + 1) % M
Distinct == \A e \in Shorts(refs) : e.fn # Now
Plain(r, t, mod, n) == Distinct /\ (r # 0 => Cardinality(refs) < Slots(max) \/ Shorts(refs) # {})
                       /\ Decode([Pic EXCEPT !.fn = Now, !.ref = r, !.type = t, !.mod = mod, !.active = n], top)
Adaptive(r, t, mod, n, a) ==
  /\ Distinct /\ Fits(a)
  /\ Decode([Pic EXCEPT !.fn = Now, !.ref = r, !.type = t, !.mod = mod, !.active = n,
                        !.ops = Append(a.ops, NoOp)], a.top)
Start == [refs |-> refs, fn |-> Now, idx |-> -1, top |-> top, ops |-> <<>>]

Init == /\ refs = {} /\ prev = 0 /\ top = -1 /\ max \in MaxRefs /\ hist = <<>>
        /\ last = [Pic EXCEPT !.idr = TRUE]
First == hist = <<>> /\ refs = {}
\* exhaustively; what is used for prediction does not matter here
Next == \/ \E lt \in BOOLEAN : Idr(1, lt, 2)
        \/ /\ ~First
           /\ \/ \E r \in {0, 1} : Plain(r, 0, <<>>, 1)
              \/ \E a \in Markings({Start}, OpsLimit) : Adaptive(1, 0, <<>>, 1, a)
\* streams to replay
PTypes == {0, 5, 3, 8, 2, 7, 1}
Random(q) == RandomElement(q)
RandomIdr == Idr(RandomElement(1..3), Random({TRUE, FALSE}), Random({2, 7}))
NextRandom ==
  IF First \/ ~Distinct \/ RandomElement(1..20) = 1 THEN RandomIdr
  ELSE \E t \in {RandomElement(PTypes)} : \E k \in {RandomElement(1..10)} :
       \E mod \in {IF t % 5 \in {0, 3} THEN RandomElement(Mods(Now)) ELSE <<>>} :
       \E n \in {RandomElement((IF Len(mod) > 2 THEN Len(mod) - 1 ELSE 1)..4)} :
         IF k <= 2 THEN Plain(0, t, mod, n)
         ELSE IF k <= 5 /\ (Cardinality(refs) < Slots(max) \/ Shorts(refs) # {})
         THEN Plain(RandomElement(1..3), t, mod, n)
         ELSE \E s \in {OneMarking(Start, OpsLimit)} :
                IF s = {} THEN RandomIdr ELSE \E a \in s : Adaptive(RandomElement(1..3), t, mod, n, a)

(***************************************************************************)
(* 8.2.5: what always holds                                                *)
(***************************************************************************)
Bounded == Cardinality(refs) <= Slots(max)
OneOwner == \A x, y \in Longs(refs) : x.idx = y.idx => x = y
OneName == \A x, y \in Shorts(refs) : x.fn = y.fn => x = y
BelowTop == \A x \in Longs(refs) : x.idx <= top
Stays == last.ref # 0 => (First \/ \E e \in refs : e.fn \in {last.fn, 0})
\* without modification, list 0 is the reference frames, each once
ListIsRefs == LET q == InitialList(refs, Now, M) IN ToSet(q) = refs /\ Len(q) = Cardinality(refs)
\* the most recent short-term frame comes first
Show == (Depth > 0 /\ Len(hist) = Depth) => PrintT("PICS " \o ToJson([max |-> max, pics |-> hist]))
EnvM == atoi(IOEnv.DPB_M)
EnvDepth == atoi(IOEnv.DPB_DEPTH)
View == <<refs, prev, top, max>>
Spec == Init /\ [][Next]_vars
SpecRandom == Init /\ [][NextRandom]_vars
=============================================================================
