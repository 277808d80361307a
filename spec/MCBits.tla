-------------------------------- MODULE MCBits --------------------------------
(***************************************************************************)
(* Codes: every value of a range, at every bit phase, is read back from    *)
(* what is written, and takes the length the standard gives it; every      *)
(* proper prefix of a code is refused.                                     *)
(***************************************************************************)
EXTENDS BitIO
CONSTANTS Top, TopN

VARIABLES k, ph
Edges == {(-2147483647) - 1, -2147483647, -2, -65536, -65537, 65535, 65536, 65534, 1073741822, 1073741823, 1073741824,
          2147483646, 2147483647, -1073741824, -1073741825, -1073741823, 8388607, 8388608}
Init == k \in (0..Top) \cup Edges /\ ph \in 0..7
Next == FALSE /\ UNCHANGED <<k, ph>>

Ones(n) == [i \in 1..n |-> 1]
At(bits) == Pack(Ones(ph) \o bits)
Total(bits) == ph + Len(bits)

\* k as an unsigned codeNum
UeInverse ==
  k # -1 =>
    LET bits == UEBits(k)
        r == UE(At(bits), ph, Total(bits))
    IN  r.ok /\ r.v = k /\ r.n = Len(bits) /\ Len(bits) % 2 = 1
UePrefix ==
  k # -1 =>
    LET bits == UEBits(k)
    IN  \A cut \in {1, Len(bits) \div 2, Len(bits)} :
          cut > 0 => ~UE(At(bits), ph, Total(bits) - cut).ok
\* k as a signed value
SeInverse ==
  k # ((-2147483647) - 1) =>
    \A s \in {k, -k} :
      LET bits == SEBits(s)
          r == UE(At(bits), ph, Total(bits))
      IN  r.ok /\ SEMap(r.v) = s /\ r.n = Len(bits)
\* all values of 0..N-1 in truncated binary
NsInverse ==
  k \in 1..TopN =>
    \A v \in 0..(k - 1) :
      LET bits == NsBits(v, k)
          b == Pack(Ones(ph) \o bits \o <<1>>)
          r == ReadNs(b, ph, Total(bits), k)
      IN  r.ok /\ r.v = v /\ r.n = Len(bits) /\ Len(bits) \in {Width(k) - 1, Width(k)}
\* fixed length fields
FixedInverse ==
  \A n \in {1, 7, 8, 9, 16, 17, 24, 30, 31, 32} :
    (n = 32 \/ (k >= 0 /\ (n = 31 \/ k < P2(n)))) =>
      LET bits == UBits(k, n)
      IN  Len(bits) = n /\ BitsVal(At(bits), ph, n) = k
\* the stop bit ends the data, whatever zeros follow
=============================================================================
