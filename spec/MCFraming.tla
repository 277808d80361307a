------------------------------ MODULE MCFraming ------------------------------
(***************************************************************************)
(* Every buffer over a small alphabet up to a length, every pair of NAL    *)
(* units: what Framing.tla says of them hangs together.                    *)
(***************************************************************************)
EXTENDS Framing
CONSTANTS Alphabet, MaxLen

VARIABLES a, b                    \* two byte strings
Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Init == a = <<>> /\ b = <<>>
\* a grows first, then b
Next == \/ /\ b = <<>> /\ Len(a) < MaxLen
           /\ \E x \in Alphabet : a' = Append(a, x)
           /\ UNCHANGED b
        \/ /\ Len(a) + Len(b) < MaxLen
           /\ \E x \in Alphabet : b' = Append(b, x)
           /\ UNCHANGED a

All == a \o b
\* emulation prevention: no start code or anything like it inside, and inverse
NoEmulation(e) == \A i \in 1..(Len(e) - 2) : ~(e[i] = 0 /\ e[i+1] = 0 /\ e[i+2] \in {0, 1, 2})
EscapeOk == /\ Unescape(Escape(All)) = All
            /\ NoEmulation(Escape(All))
            /\ Len(Unescape(All)) <= Len(All)
            /\ Unescape(All) = All <=> ~\E i \in 1..Len(All) : IsEmulation(All, i)
\* Annex B: the units are in the buffer, in order, apart
AnnexBOk ==
  LET ix == AnnexB(All) IN
  \A k \in 1..Len(ix) :
    /\ ix[k].payload - ix[k].start \in {3, 4}
    /\ ix[k].payload < Len(All)
    /\ ix[k].size >= 0 /\ ix[k].payload + ix[k].size <= Len(All)
    /\ k < Len(ix) => ix[k].payload + ix[k].size = ix[k+1].start
    /\ k = Len(ix) => ix[k].payload + ix[k].size = Len(All)
    /\ \A j \in 0..(ix[k].size - 4) : ~StartCodeAt(All, ix[k].payload + j)
\* units go in and come out again, whatever the start codes
Nal(x) == IF x = <<>> THEN <<9>> ELSE IF x[Len(x)] = 0 THEN Append(Escape(x), 128) ELSE Escape(x)
Units(buf, ix) == [k \in 1..Len(ix) |-> Slice(buf, ix[k].payload, ix[k].size)]
AnnexBInverse ==
  \A l1 \in BOOLEAN, l2 \in BOOLEAN :
    LET buf == WithStartCode(Nal(a), l1) \o WithStartCode(Nal(b), l2)
    IN  Units(buf, AnnexB(buf)) = <<Nal(a), Nal(b)>>
LengthsInverse ==
  \A n \in {1, 2, 4} :
    LET x == IF a = <<>> THEN <<9>> ELSE a
        y == IF b = <<>> THEN <<9>> ELSE b
        buf == WithLength(x, n) \o WithLength(y, n)
    IN  /\ Units(buf, LengthFraming(buf, n)) = <<x, y>>
        /\ (n = 4 => Units(buf, ExplicitFraming(buf)) = <<x, y>>)
LengthsOk ==
  \A n \in 0..4 :
    LET ix == LengthFraming(All, n) IN
    \A k \in 1..Len(ix) :
      /\ ix[k].payload = ix[k].start + n
      /\ ix[k].size > 0 /\ ix[k].payload + ix[k].size <= Len(All)
      /\ k < Len(ix) => ix[k].payload + ix[k].size = ix[k+1].start
\* Positions commute with lengthening a run of zeros: what the driver's gaps
\* rely on.  n zeros more after the first k bytes, where four zeros follow.
Stretch(w, k, n) == SubSeq(w, 1, k) \o [i \in 1..n |-> 0] \o SubSeq(w, k + 1, Len(w))
Moved(p, k, n) == IF p <= k /\ k # 0 THEN p ELSE p + n
StretchOk ==
  \A k \in 0..(Len(All) - 4), n \in 1..2 :
    (All[k+1] = 0 /\ All[k+2] = 0 /\ All[k+3] = 0 /\ All[k+4] = 0) =>
      LET ix == AnnexB(All)  iy == AnnexB(Stretch(All, k, n))
          m(p) == Moved(p, k, n)
      IN  /\ iy = [j \in 1..Len(ix) |->
                      [start |-> m(ix[j].start), payload |-> m(ix[j].payload),
                       size |-> m(ix[j].payload + ix[j].size) - m(ix[j].payload)]]
          /\ Len(Unescape(Stretch(All, k, n))) = Len(Unescape(All)) + n
=============================================================================
