--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Natural numbers of any size: sequences of digits to the base 4096,      *)
(* least significant first.                                                *)
(***************************************************************************)
EXTENDS Bits

BigBase == 4096
Digit(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
\* the uint32 with this int32 representation
BigU32(v) ==
  LET lo == v % 65536  hi == (v - lo) \div 65536  h == IF hi < 0 THEN hi + 65536 ELSE hi
  IN  <<lo % 4096, (lo \div 4096) + 16 * (h % 256), h \div 256>>
BigPow2(k) == [i \in 1..((k \div 12) + 1) |-> IF i = (k \div 12) + 1 THEN P2(k % 12) ELSE 0]
BigCarry(q) ==      \* digits up to 2^30, into digits
  LET r == FoldLeft(LAMBDA a, v : [c |-> (a.c + v) \div BigBase, q |-> Append(a.q, (a.c + v) % BigBase)],
                    [c |-> 0, q |-> <<>>], q)
  IN  r.q \o <<r.c % BigBase, r.c \div BigBase>>
BigMul(a, b) ==
  BigCarry([k \in 1..(Len(a) + Len(b)) |->
    FoldLeft(LAMBDA s, i : s + a[i] * Digit(b, k + 1 - i), 0, OneTo(Len(a)))])
BigLe(a, b) ==
  LET n == Max2(Len(a), Len(b))
      d == {i \in 1..n : Digit(a, i) # Digit(b, i)}
  IN  IF d = {} THEN TRUE ELSE LET m == Max(d) IN Digit(a, m) < Digit(b, m)
\* b <= a
BigSub(a, b) ==
  FoldLeft(LAMBDA x, i : LET v == (Digit(a, i) - Digit(b, i)) - x.c
                         IN  [c |-> IF v < 0 THEN 1 ELSE 0, q |-> Append(x.q, IF v < 0 THEN v + BigBase ELSE v)],
           [c |-> 0, q |-> <<>>], OneTo(Len(a))).q
BigDiff(a, b) == IF BigLe(b, a) THEN BigSub(a, b) ELSE BigSub(b, a)

\* m * 2^e is x / y up to a relative error of 2^-k
CloseTo(m, e, x, y, k) ==
  LET a == BigMul(BigU32(m), BigMul(y, BigPow2(Max2(e, 0))))
      b == BigMul(x, BigPow2(Max2(-e, 0)))
  IN  BigLe(BigMul(BigDiff(a, b), BigPow2(k)), b)
=============================================================================
