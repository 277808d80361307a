------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* From a byte buffer to NAL units and back: emulation prevention (7.3.1,  *)
(* 7.4.1), the Annex B byte stream, and length-prefixed framing.           *)
(***************************************************************************)
EXTENDS Bits

Slice(b, from, n) == SubSeq(b, from + 1, from + n)        \* n bytes from offset

(***************************************************************************)
(* Emulation prevention.  A 3 that follows two zero bytes of the escaped   *)
(* data is dropped.                                                        *)
(***************************************************************************)
IsEmulation(b, i) == i > 2 /\ b[i] = 3 /\ b[i-1] = 0 /\ b[i-2] = 0
Unescape(b) ==
  LET drops == {i \in 1..Len(b) : IsEmulation(b, i)}
  IN  IF drops = {} THEN b
      ELSE LET keep == SelectSeq(OneTo(Len(b)), LAMBDA i : ~IsEmulation(b, i))
           IN  [k \in 1..Len(keep) |-> b[keep[k]]]

\* 7.4.1: insert a 3 before any byte 0..3 that follows two zeros
Escape(b) ==
  LET step(acc, x) ==
        IF acc.z >= 2 /\ x <= 3
        THEN [o |-> acc.o \o <<3, x>>, z |-> IF x = 0 THEN 1 ELSE 0]
        ELSE [o |-> Append(acc.o, x),  z |-> IF x = 0 THEN acc.z + 1 ELSE 0]
  IN  FoldLeft(step, [o |-> <<>>, z |-> 0], b).o

(***************************************************************************)
(* Annex B.  A start code 00 00 01 that is followed by at least one byte   *)
(* opens a NAL unit; a zero byte just before it belongs to the start code. *)
(* [start, payload, size] are 0-based offsets.                             *)
(***************************************************************************)
StartCodeAt(b, i) ==      \* 0-based
  /\ i + 3 < Len(b)
  /\ b[i+3] = 1 /\ b[i+2] = 0 /\ b[i+1] = 0
StartOf(b, i) == IF i > 0 /\ b[i] = 0 THEN i - 1 ELSE i
AnnexB(b) ==
  LET sc == SelectSeq([k \in 1..Len(b) |-> k - 1], LAMBDA i : StartCodeAt(b, i))
      n  == Len(sc)
  IN  [k \in 1..n |->
         [start |-> StartOf(b, sc[k]), payload |-> sc[k] + 3,
          size |-> (IF k < n THEN StartOf(b, sc[k+1]) ELSE Len(b)) - (sc[k] + 3)]]

\* writing: one NAL unit (escaped bytes) behind a start code
WithStartCode(nal, long) == (IF long THEN <<0, 0, 0, 1>> ELSE <<0, 0, 1>>) \o nal

(***************************************************************************)
(* Length-prefixed framing with n-byte big endian lengths.  A length is    *)
(* compared with what is left, so it never needs more than 31 bits:        *)
(* BigLen is "more than any buffer".                                       *)
(***************************************************************************)
BigLen == 2147483647
LengthAt(b, i, n) ==      \* n bytes at offset i
  FoldLeft(LAMBDA acc, k : IF acc >= 8000000 THEN BigLen ELSE acc * 256 + b[i + k], 0, OneTo(n))

\* the API that lists the units of 4-byte framing: a zero length is a unit
RECURSIVE ExplicitFrom(_, _)
ExplicitFrom(b, i) ==
  IF i + 4 > Len(b) THEN <<>>
  ELSE LET z == LengthAt(b, i, 4)
       IN  IF z > Len(b) - i - 4 THEN <<>>
           ELSE <<[start |-> i, payload |-> i + 4, size |-> z]>> \o ExplicitFrom(b, i + 4 + z)
ExplicitFraming(b) == ExplicitFrom(b, 0)

\* the units a parse of length-framed data visits: it stops at a zero, a
\* truncated or an oversized length; no length field at all is one unit
RECURSIVE LengthFrom(_, _, _)
LengthFrom(b, i, n) ==
  IF i >= Len(b) \/ n > Len(b) - i THEN <<>>
  ELSE LET z == LengthAt(b, i, n)
       IN  IF z = 0 \/ z > Len(b) - i - n THEN <<>>
           ELSE <<[start |-> i, payload |-> i + n, size |-> z]>> \o LengthFrom(b, i + n + z, n)
LengthFraming(b, n) ==
  IF n = 0 THEN IF b = <<>> THEN <<>> ELSE <<[start |-> 0, payload |-> 0, size |-> Len(b)]>>
  ELSE LengthFrom(b, 0, n)
LengthBytes(v, n) == [k \in 1..n |-> IF n - k > 3 THEN 0 ELSE (v \div P2(8 * (n - k))) % 256]
WithLength(nal, n) == LengthBytes(Len(nal), n) \o nal
=============================================================================
